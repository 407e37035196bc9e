"""C20: VBA-modules imported into workbooks are exactly the files matched, saved macro-enabled.

MS Excel is not available here (nor on Linux): the COM-objects are stand-ins modelling
the documented behavior of the VBA extensibility object-model (VBE).
"""
import contextlib
import importlib.util
import io
import os
import re
import shutil
import sys
import tempfile
import types

from hypothesis import strategies as st

from vlib import boot
from vlib.core import HarnessError, check_eq, facet, fail

ID = "C20"
RULE = """
imports: histories of imports by wildcards of files written in a scratch folder, into simulated workbooks with modules,
classes & sheets, active or opened, under various names, saved or not.
many: the same with tens of files and modules, also with faults. faults: the same, with Excel failing at the k-th call of some kind, with untrusted or protected VBA-projects, or missing workbooks.
removal: modules removed by their names, if any, from up to 40.
cli: command-lines.
names: texts around the Excel extensions, for files.
shell: shortcuts, folders, and the detection of Excel.
Non-trivial: a module replaced by a file (imports); the fault actually hit (faults); some module imported (cli); 2+ modules removed & something left (removal);
an extension of Excel contained (names); 2+ attributes or calls (shell).
"""
ASSUMPTIONS = [
    "Excel's COM-objects are stand-ins, with the documented behavior of VBComponents (case-insensitive unique names, "
    "com_error for missing components), Workbook.Save/SaveAs and WshShortcut",
    "files matched are named as VBA identifiers, and not as sheets or classes of the workbook",
]
MACRO = 52  # xlOpenXMLWorkbookMacroEnabled
T_MODULE, T_CLASS, T_SHEET = 1, 2, 100
TRUST_HR = -2147352567


# --------------------------------------------------------------------------
# Stand-ins
# --------------------------------------------------------------------------
class ComError(Exception):
    def __init__(self, hresult, text, excepinfo=None, argerr=None):
        Exception.__init__(self, hresult, text, excepinfo, argerr)
        self.hresult = hresult
        self.strerror = text
        self.excepinfo = excepinfo
        self.argerror = argerr


class World(object):
    """The Excel-application, with faults to inject at the k-th call of some kind."""

    def __init__(self, fault=None):
        self.fault = fault
        self.hit = False
        self.counts = {}
        self.log = []
        self.DisplayAlerts = True
        self.dialogs = []
        self.opened = []

    def call(self, kind):
        k = self.counts[kind] = self.counts.get(kind, 0) + 1
        if self.fault and self.fault[0] == kind and self.fault[1] == k:
            self.hit = True
            raise ComError(-2147467259, "Injected", (0, "Excel", "Injected at %s" % kind))


class Code(object):
    def __init__(self, lines):
        self.lines = lines

    @property
    def CountOfLines(self):
        return len(self.lines)


class Component(object):
    def __init__(self, owner, name, typ, lines):
        self._owner, self._name, self.Type, self.CodeModule = owner, name, typ, Code(lines)

    @property
    def Name(self):
        return self._name

    @Name.setter
    def Name(self, name):
        self._owner.world.call("rename")
        if not re.match(r"[A-Za-z]\w{0,30}$", name):
            raise ComError(-2146767838, "Invalid name", (0, None, "Not a legal object name: '%s'" % name))
        for c in self._owner.items:
            if c is not self and c._name.lower() == name.lower():
                raise ComError(-2146767838, "Conflict", (0, None, "Name conflicts with existing module"))
        self._name = name


class Components(object):
    def __init__(self, world, comps):
        self.world = world
        self.items = [Component(self, *c) for c in comps]

    def __iter__(self):
        return iter(list(self.items))

    def __len__(self):
        return len(self.items)

    @property
    def Count(self):
        return len(self.items)

    def Item(self, key):
        self.world.call("item")
        if isinstance(key, int):
            if 1 <= key <= len(self.items):
                return self.items[key - 1]
        else:
            for c in self.items:
                if c._name.lower() == key.lower():
                    return c
        raise ComError(-2147352567 + 9, "Subscript out of range", (9, None, "Subscript out of range"))

    __call__ = Item

    def Remove(self, comp):
        self.world.call("remove")
        if comp.Type == T_SHEET or comp not in self.items:
            raise ComError(-2147024809, "Invalid argument", (5, None, "Invalid procedure call or argument"))
        self.items.remove(comp)

    def Import(self, path):
        self.world.call("import")
        if not os.path.isabs(path) or not os.path.isfile(path):
            raise ComError(-2146828235, "File not found", (53, None, "File not found: %s" % path))
        with open(path) as fd:
            lines = fd.read().splitlines()
        name = "Module1"
        code = []
        for line in lines:
            m = re.match(r'Attribute VB_Name = "(\w+)"$', line)
            if m:
                name = m.group(1)
            else:
                code.append(line)
        base, i = name, 0
        while any(c._name.lower() == name.lower() for c in self.items):
            i += 1
            name = "%s%i" % (base, i)
        comp = Component(self, name, T_MODULE, code)
        self.items.append(comp)
        return comp


class Workbook(object):
    """The COM-workbook (`Book.api`, for xlwings)."""

    def __init__(self, world, folder, name, comps, access="ok"):
        self.Application = world
        self._path, self._name = folder, name
        self._access = access
        self.comps = Components(world, comps)
        self.saves = []

    Path = property(lambda self: self._path)
    Name = property(lambda self: self._name)

    @property
    def FullName(self):
        return "%s/%s" % (self._path, self._name) if self._path else self._name

    def snapshot(self):
        return [(c._name, c.Type, list(c.CodeModule.lines)) for c in self.comps.items]

    @property
    def VBProject(self):
        if self._access == "untrusted":
            raise ComError(
                TRUST_HR, "Exception occurred.",
                (0, "MS Excel", "Programmatic access to VB Project is not trusted", None, 0, -2146827284),
            )
        self.Application.call("project")
        return types.SimpleNamespace(
            Protection=1 if self._access == "protected" else 0, VBComponents=self.comps
        )

    def Save(self):
        self.Application.call("save")
        self.saves.append((self.FullName, None, self.snapshot()))

    def SaveAs(self, Filename, FileFormat=None):
        # Excel would ask whether to overwrite the existing ones, and stall.
        if self.Application.DisplayAlerts:
            raise ComError(-1, "Stalled asking", (0, None, "Stalled asking"))
        self.Application.call("save")
        self.saves.append((Filename, FileFormat, self.snapshot()))
        self._path, self._name = os.path.split(Filename)
        self._path = self._path or "/home/documents"


class Book(object):
    def __init__(self, api):
        self.api = api

    @property
    def name(self):
        return self.api.Name


@contextlib.contextmanager
def excel(world, active, on_disk):
    """Installs stand-ins for the libraries that talk to Excel."""
    xw = types.ModuleType("xlwings")
    xw.books = types.SimpleNamespace(active=active and Book(active))

    def book(fname):
        world.opened.append(fname)
        if fname not in on_disk:
            raise IOError("No such workbook: %s" % fname)
        return Book(on_disk[fname])

    xw.Book = book
    w32 = types.ModuleType("win32com")
    w32.universal = types.ModuleType("win32com.universal")
    w32.universal.com_error = ComError
    gui = types.ModuleType("easygui")
    for k in ("textbox", "msgbox", "codebox"):
        setattr(gui, k, lambda *a, **kw: world.dialogs.append((a, kw)))
    mods = {"xlwings": xw, "win32com": w32, "win32com.universal": w32.universal, "easygui": gui}
    olds = {k: sys.modules.get(k) for k in mods}
    sys.modules.update(mods)
    try:
        yield
    finally:
        for k, v in olds.items():
            if v is None:
                del sys.modules[k]
            else:
                sys.modules[k] = v


@contextlib.contextmanager
def scratch(files):
    d = os.path.realpath(tempfile.mkdtemp(prefix="verif-c20-"))
    old = os.getcwd()
    try:
        os.mkdir(os.path.join(d, "cwd"))
        os.chdir(os.path.join(d, "cwd"))
        for path, lines in files.items():
            if "/" in path and not os.path.isdir(os.path.dirname(path)):
                os.makedirs(os.path.dirname(path))
            with open(path, "w") as fd:
                fd.write("".join("%s\n" % line for line in lines))
        yield os.path.join(d, "cwd")
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


# --------------------------------------------------------------------------
# Model
# --------------------------------------------------------------------------
def matching(wildcard, files):
    rex = "".join({"*": "[^/]*", "?": "[^/]"}.get(c) or re.escape(c) for c in wildcard)
    return [
        f for f in files
        if re.match("(?:%s)$" % rex, f) and not (os.path.basename(f).startswith(".") and os.path.basename(wildcard)[0] in "*?")
    ]


def stem(f):
    return os.path.splitext(os.path.basename(f))[0]


def code_of(lines):
    return [x for x in lines if not x.startswith("Attribute VB_Name")]


def check_imported(before, after, files, matched):
    """The modules afterwards: the untouched ones (in order), and exactly one per file-stem."""
    stems = {}
    for f in matched:
        stems.setdefault(stem(f).lower(), []).append(f)
    kept = [c for c in before if c[0].lower() not in stems]
    check_eq([c for c in after if c[0].lower() not in stems], kept, "components not imported")
    new = [c for c in after if c[0].lower() in stems]
    check_eq(sorted(c[0].lower() for c in new), sorted(stems), "modules imported")
    for name, typ, lines in new:
        fs = stems[name.lower()]
        if not any(stem(f) == name and code_of(files[f]) == lines for f in fs):
            fail("module %r has not the name & code of any of %s", name, fs)
        check_eq(typ, T_MODULE, "type of %s", name)


def save_target(wb_fullname, new_fname):
    """:return: (path, in_place) of the file to be saved."""
    if new_fname:
        return new_fname, False
    if os.path.splitext(wb_fullname)[1].lower().endswith("m"):
        return wb_fullname, True
    return wb_fullname + ".xlsm", False


def check_saved(saves, after, target, in_place):
    check_eq(len(saves), 1, "times saved")
    path, fmt, snap = saves[0]
    if "/" not in target:
        path = os.path.basename(path)  # Never saved before, any folder will do.
    check_eq(path, target, "path saved")
    check_eq(snap, after, "contents saved")
    if not in_place:
        check_eq(fmt, MACRO, "file-format saved")


# --------------------------------------------------------------------------
# Strategies
# --------------------------------------------------------------------------
STEMS = ["a", "b", "ab", "mod1", "Mod1", "m2", "xl_run", "B"]
EXTS = [".vba", ".bas", ".vba", ".txt", "", ".v_a"]
LINES = st.lists(st.sampled_from(["Option Explicit", "Sub x()", "End Sub", "' text", ""]), max_size=3)


@st.composite
def vba_files(draw):
    files = {}
    for i in range(draw(st.integers(0, 5))):
        f = (
            draw(st.sampled_from(["", "", "", "../lib/", "../lib.d/"]))
            + draw(st.sampled_from(STEMS))
            + draw(st.sampled_from(EXTS))
        )
        lines = list(draw(LINES)) + ["' file %i" % i]
        if draw(st.booleans()):
            lines.insert(0, 'Attribute VB_Name = "%s"' % draw(st.sampled_from(STEMS + ["other"])))
        files[f] = lines
    return files


@st.composite
def wildcards(draw, files):
    if files and draw(st.booleans()):
        f = draw(st.sampled_from(sorted(files)))
        d, b = os.path.split(f)
        d = d and d + "/"
        root, ext = os.path.splitext(b)
        return d + draw(st.sampled_from(["*", "*" + ext, b, root[0] + "*", root + ".*", "?" + b[1:], "*%s*" % root[-1]]))
    return draw(st.sampled_from(["*.vba", "*.bas", "*", "../lib/*", "../lib/*.vba", "../l*/*.vba", "nope*", "m*.vba", "../lib?d/*", "*.v?a"]))


@st.composite
def components(draw):
    comps, seen = [], set()
    for name, typ in draw(
        st.lists(
            st.one_of(
                st.tuples(st.sampled_from(STEMS + ["other", "Module1", "XL_RUN", "aB"]), st.just(T_MODULE)),
                st.tuples(st.sampled_from(["Sheet1", "ThisWorkbook"]), st.just(T_SHEET)),
                st.tuples(st.sampled_from(["Klass", "Other2"]), st.just(T_CLASS)),
            ),
            max_size=6,
        )
    ):
        if name.lower() not in seen:
            seen.add(name.lower())
            comps.append((name, typ, ["' old %s" % name]))
    return comps


WB = st.sampled_from(
    [
        ("/home/u", "wb.xlsm"),
        ("/home/u", "wb.xlsx"),
        ("/home/u", "wb.XLSM"),
        ("/home/u.xlsm", "wb.xls"),
        ("/home/u", "t.xltm"),
        ("/home/u", "x.xlam"),
        ("/home/u", "t.xltx"),
        ("/home/u", "a.b.xlsx"),
        ("/home/u", "m.xlsb"),
        ("", "Book1"),
        ("", "Totalm"),
    ]
)


@st.composite
def import_cases(draw):
    files = draw(vba_files())
    steps = draw(
        st.lists(
            st.tuples(
                wildcards(files),
                st.booleans(),  # absolute wildcard
                st.sampled_from([None, None, None, "/out/new.xlsm", "/out/n.xltm", ""]),
            ),
            min_size=1,
            max_size=3,
        )
    )
    return dict(
        files=files,
        wb=draw(WB),
        comps=draw(components()),
        active=draw(st.booleans()),
        steps=steps,
    )


@st.composite
def many_cases(draw):
    """Tens of files & modules, long names."""
    pad = draw(st.sampled_from(["", "", "x" * 27]))
    names = ["m%02d%s" % (i, pad) for i in range(draw(st.sampled_from([3, 12, 40, 70])))]
    some = lambda: [n for i, n in enumerate(names) if (i * step) % 7 < lim]
    step, lim = draw(st.integers(1, 6)), draw(st.integers(1, 7))
    files = {}
    for i, n in enumerate(some()):
        folder = draw(st.sampled_from(["", "", "../lib/"])) if i < 5 else ""
        files[folder + n + ".vba"] = ["' file %i" % i] * (1 + i % 3 * 200)
    step, lim = draw(st.integers(1, 6)), draw(st.integers(0, 7))
    comps = [(draw(st.booleans()) and i < 4 and n.upper() or n, T_MODULE, ["' old %s" % n]) for i, n in enumerate(some())]
    for i in range(draw(st.sampled_from([0, 1, 40]))):
        comps.insert(draw(st.integers(0, len(comps))) if i < 5 else i, ("Sheet%i" % i, T_SHEET, ["' %i" % i]))
    step = st.tuples(
        st.sampled_from(["*.vba", "*", "m0*", "m?2*.vba", "../lib/*.vba", "m*"]),
        st.booleans(),
        st.sampled_from([None, None, "/out/new.xlsm"]),
    )
    steps = draw(st.lists(step, min_size=1, max_size=4))
    case = dict(files=files, wb=draw(WB), comps=comps, active=draw(st.booleans()), steps=steps)
    if draw(st.integers(0, 2)) == 0:
        kind = draw(st.sampled_from(["import", "remove", "rename"]))
        case["fault"] = (kind, draw(st.integers(1, 70)))
        case["steps"] = case["steps"][:1]
    return case


def check_many(case, ctx):
    if "fault" in case:
        check_fault(case, ctx)
    else:
        check_import(case, ctx)


def run_import(xlsutils, args, kwds):
    return xlsutils.import_vba_into_excel_workbook(*args, **kwds)


def conflicting(before, matched):
    """Files that would replace classes or sheets."""
    others = {c[0].lower() for c in before if c[1] != T_MODULE}
    return any(stem(f).lower() in others for f in matched)


def check_import(case, ctx):
    from pandalone import xlsutils

    files = case["files"]
    world = World()
    wb = Workbook(world, case["wb"][0], case["wb"][1], case["comps"])
    decoy = Workbook(world, "/home/decoy", "decoy.xlsm", [("a", T_MODULE, ["' decoy"])])
    decoy0 = decoy.snapshot()
    with scratch(files) as d:
        if case["active"]:
            active, on_disk, fname = wb, {}, None
        else:
            active, on_disk, fname = decoy, {"/in/inp.xls": wb}, "/in/inp.xls"
        with excel(world, active, on_disk):
            for wildcard, absolute, new_fname in case["steps"]:
                matched = matching(wildcard, files)
                if conflicting(wb.snapshot(), matched):
                    raise HarnessError("Generated sheet-names for files.")
                before = wb.snapshot()
                nsaves = len(wb.saves)
                fullname = wb.FullName
                w = os.path.join(d, wildcard) if absolute else wildcard
                got = run_import(xlsutils, (w,), dict(wrkb_fname=fname, new_fname=new_fname))
                if got is None or getattr(got, "api", got) is not wb:
                    fail("returned %r instead of the workbook", got)
                after = wb.snapshot()
                saves = wb.saves[nsaves:]
                if not matched:
                    check_eq(after, before, "components without files")
                    check_eq(saves, [], "saves without files")
                    ctx.label("no files")
                else:
                    check_imported(before, after, files, matched)
                    target, in_place = save_target(fullname, new_fname)
                    check_saved(saves, after, target, in_place)
                    olds = {c[0].lower() for c in before}
                    ctx.nontrivial(any(stem(f).lower() in olds for f in matched))
                    ctx.label("in-place" if in_place else "as new" if new_fname else "clone")
                check_eq(world.DisplayAlerts, True, "alerts of Excel")
                check_eq(world.dialogs, [], "dialogs")
                if wb.FullName != fullname and not case["active"]:
                    on_disk["/in/inp.xls"] = wb
        check_eq(decoy.snapshot(), decoy0, "unrelated workbook")
        check_eq(decoy.saves, [], "saves of unrelated workbook")
        for f, lines in files.items():
            with open(f) as fd:
                check_eq(fd.read().splitlines(), lines, "file %s", f)


# --------------------------------------------------------------------------
@st.composite
def fault_cases(draw):
    case = draw(import_cases())
    case["steps"] = case["steps"][:1]
    kind = draw(
        st.sampled_from(["import", "import", "save", "save", "rename", "remove", "project", "untrusted", "protected", "no-wb", "bad-wb"])
    )
    case["fault"] = (kind, draw(st.integers(1, 3)) if kind in ("import", "rename", "remove") else 1)
    return case


def check_fault(case, ctx):
    from pandalone import xlsutils

    files = case["files"]
    kind = case["fault"][0]
    access = kind if kind in ("untrusted", "protected") else "ok"
    world = World(case["fault"])
    wb = Workbook(world, case["wb"][0], case["wb"][1], case["comps"], access)
    before = wb.snapshot()
    wildcard, absolute, new_fname = case["steps"][0]
    matched = matching(wildcard, files)
    err = None
    with scratch(files) as d:
        if kind == "no-wb":
            active, on_disk, fname = None, {}, None
        elif kind == "bad-wb":
            active, on_disk, fname = wb, {}, "/in/missing.xls"
        elif case["active"]:
            active, on_disk, fname = wb, {}, None
        else:
            active, on_disk, fname = None, {"/in/inp.xls": wb}, "/in/inp.xls"
        w = os.path.join(d, wildcard) if absolute else wildcard
        with excel(world, active, on_disk):
            try:
                run_import(xlsutils, (w,), dict(wrkb_fname=fname, new_fname=new_fname))
            except Exception as ex:
                err = ex
    after = wb.snapshot()
    check_eq(world.DisplayAlerts, True, "alerts of Excel")
    faulty = world.hit or kind in ("untrusted", "protected", "no-wb", "bad-wb")
    ctx.label(kind if faulty else "not reached")
    ctx.nontrivial(faulty)
    if not faulty:
        if err is not None:
            raise err
        if matched:
            check_imported(before, after, files, matched)
            check_saved(wb.saves, after, *save_target("/".join(filter(None, case["wb"])), new_fname))
        return
    if err is None:
        fail("no error reported for %s", case["fault"])
    check_eq(wb.saves, [], "saves of half-done workbook")
    if kind in ("untrusted", "protected", "no-wb", "bad-wb", "project"):
        check_eq(after, before, "components")
    if kind == "no-wb" and not isinstance(err, ValueError):
        fail("no active workbook, but got %r", err)
    if kind == "bad-wb" and not isinstance(err, IOError):
        fail("missing workbook, but got %r", err)
    if kind in ("import", "save", "project", "rename") and not isinstance(err, ComError):
        fail("the error of Excel got hidden by %r", err)
    if kind in ("untrusted", "protected"):
        if kind == "untrusted" and "is not trusted" not in str(err):
            fail("error without the reason: %r", err)
        if kind == "protected" and "protected" not in str(err):
            fail("error without the reason: %r", err)
        check_eq(len(world.dialogs), 1, "dialogs shown")
        if "Trust access to the VBA project" not in repr(world.dialogs):
            fail("dialog without instructions: %r", world.dialogs)
    else:
        check_eq(world.dialogs, [], "dialogs")


# --------------------------------------------------------------------------
@st.composite
def cli_cases(draw):
    files = draw(vba_files())
    kind = draw(st.sampled_from(["few", "option", "import", "import", "--pandalone", "--pandalone"]))
    argv = [draw(st.sampled_from(["cmd", "/bin/xlsutils.py", "x.py"]))]
    if kind == "option":
        argv.append(draw(st.sampled_from(["--help", "--pandalon", "--pandalone2", "--", "--PANDALONE", "--x"])))
    elif kind == "import":
        argv.append(draw(wildcards(files)))
    elif kind != "few":
        argv.append(kind)
    nargs = 0 if kind == "few" else draw(st.integers(0, 2))
    argv += ["/in/inp.xls", "/out/bar.xlsm"][:nargs]
    return dict(files=files, argv=argv, kind=kind, nargs=nargs, wb=draw(WB), comps=draw(components()))


def check_cli(case, ctx):
    from pandalone import xlsutils

    files, argv, nargs = case["files"], case["argv"], case["nargs"]
    world = World()
    wb = Workbook(world, case["wb"][0], case["wb"][1], case["comps"])
    before, fullname = wb.snapshot(), wb.FullName
    other = Workbook(world, "/x", "other.xlsm", [("a", T_MODULE, [])])
    active, on_disk = (wb, {}) if nargs == 0 else (other, {"/in/inp.xls": wb})
    exited = None
    with scratch(files), excel(world, active, on_disk):
        out = io.StringIO()
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
                xlsutils.main(*argv)
        except SystemExit as ex:
            exited = ex
    after = wb.snapshot()
    ctx.label(case["kind"])
    check_eq(other.saves, [], "saves of other workbooks")
    if case["kind"] in ("few", "option"):
        if exited is None or exited.code in (None, 0):
            fail("bad arguments accepted: %s", argv)
        if "Usage" not in str(exited.code) and "Usage" not in out.getvalue():
            fail("no usage shown for %s, but: %s", argv, exited.code)
        if case["kind"] == "option" and argv[1] not in str(exited.code):
            fail("unknown option not reported: %s", exited.code)
        check_eq(after, before, "components after bad arguments")
        check_eq(wb.saves, [], "saves after bad arguments")
        ctx.nontrivial(nargs > 0)
        return
    if exited is not None:
        fail("%s exited with %s", argv, exited.code)
    if case["kind"] == "--pandalone":
        folder = os.path.join(boot.REPO, "pandalone", "excel")
        files = {}
        for f in os.listdir(folder):
            if f.endswith(".vba"):
                with open(os.path.join(folder, f)) as fd:
                    files[f] = fd.read().splitlines()
        if not files:
            raise HarnessError("No VBA files shipped.")
        matched = list(files)
    else:
        matched = matching(argv[1], files)
    if matched:
        check_imported(before, after, files, matched)
        check_saved(wb.saves, after, *save_target(fullname, argv[3] if nargs == 2 else None))
        ctx.nontrivial()
    else:
        check_eq(after, before, "components without files")
        check_eq(wb.saves, [], "saves without files")


# --------------------------------------------------------------------------
XL = ["xls", "xlsx", "xlsm", "xlt", "xltx", "xltm", "xlw", "xlm"]


@st.composite
def removal_cases(draw):
    comps = draw(components())
    for i in range(draw(st.sampled_from([0, 0, 0, 5, 40]))):
        comps.append(("Mod%i" % i, T_MODULE, ["' %i" % i]))
    comps = draw(st.permutations(comps))
    names = draw(st.lists(st.sampled_from([c[0] for c in comps] + ["nope", "Mod1"]), max_size=4))
    if draw(st.integers(0, 5)) == 0:
        names = [c[0] for c in comps[::2]]
    case = draw(st.sampled_from([str, str.upper, str.lower, str.swapcase]))
    return {"comps": comps, "names": [case(n) for n in names]}


def check_removal(case, ctx):
    from pandalone import xlsutils

    if not hasattr(xlsutils, "_remove_vba_modules"):
        ctx.label("gone")  # Nothing uses it.
        return
    comps = Components(World(), case["comps"])
    xlsutils._remove_vba_modules(comps, *case["names"])
    low = {n.lower() for n in case["names"]}
    exp = [c for c in case["comps"] if c[1] != T_MODULE or (low and c[0].lower() not in low)]
    got = [(c.Name, c.Type, c.CodeModule.lines) for c in comps]
    check_eq(got, exp, "components of %r after removing %r", case["comps"], case["names"])
    ctx.nontrivial(0 < len(exp) < len(case["comps"]) - 1)
    ctx.label("named" if low else "all")


# --------------------------------------------------------------------------
@st.composite
def name_cases(draw):
    ext = draw(st.sampled_from(XL + ["xl", "xlsb", "xla", "xlam", "xlsxx", "xlwx", "xlmx", "csv", "xl.sx", "sx", "ods", "xls m", "xltw"]))
    ext = "".join(c.upper() if draw(st.booleans()) else c for c in ext)
    return (
        draw(st.sampled_from(["", "a", "dir.xls/a", "a.xlsx", "a b", ".", "C:\\x\\y", "a.csv"]))
        + draw(st.sampled_from([".", ".", ".", "", "_"]))
        + ext
        + draw(st.sampled_from(["", "", "", "", "/", "x", ".bak", " ", "\n", "#Sheet1", "~"]))
    )


def check_name(case, ctx):
    from pandalone import xlsutils

    exp = any(case.lower().endswith("." + e) for e in XL)
    check_eq(bool(xlsutils.is_excel_file(case)), exp, "is_excel_file(%r)", case)
    ctx.label("excel" if exp else "other")
    ctx.nontrivial(any("." + e in case.lower() for e in XL))


# --------------------------------------------------------------------------
ATTRS = ["wdir", "target_args", "icon_path", "desc"]
COM_ATTRS = dict(wdir="WorkingDirectory", target_args="Arguments", icon_path="IconLocation", desc="Description")
TEXTS = st.sampled_from(["a", "C:\\dir\\x.exe", "-m foo", "", "x,0", "\u03b1"])


def shell_cases():
    return st.one_of(
        st.tuples(
            st.just("shortcut"),
            st.sampled_from(["C:\\x.lnk", "D:\\a b.lnk"]),
            TEXTS,
            st.dictionaries(st.sampled_from(ATTRS), TEXTS),
            st.dictionaries(st.sampled_from(ATTRS + ["target"]), st.just("old")),
        ),
        st.tuples(st.just("folder"), st.sampled_from(["StartMenu", "MyDocuments", "Desktop", "Nope"])),
        st.tuples(st.just("installed"), st.lists(st.booleans(), min_size=1, max_size=4)),
    )


class Shortcut(object):
    def __init__(self, store, path, old):
        vars(self).update(old)
        vars(self).update(_store=store, _path=path)

    def __setattr__(self, k, v):
        # COM attributes are case-insensitive.
        for n in ["TargetPath"] + list(COM_ATTRS.values()):
            if n.lower() == k.lower():
                vars(self)[n] = v
                return
        raise AttributeError(k)

    def Save(self):
        self._store.append((self._path, {k: v for k, v in vars(self).items() if k[0] != "_"}))

    save = Save


def check_shell(case, ctx):
    from pandalone import winutils

    ctx.label(case[0])
    if case[0] == "shortcut":
        _, path, target, given, old = case
        names = dict(COM_ATTRS, target="TargetPath")
        old = {names[k]: v for k, v in old.items()}
        store = []
        wsh = types.SimpleNamespace(
            CreateShortCut=lambda p: Shortcut(store, p, old), CreateShortcut=lambda p: Shortcut(store, p, old)
        )
        winutils.win_create_shortcut(wsh, path, target, **given)
        exp = dict(old, TargetPath=target)
        exp.update({COM_ATTRS[k]: v for k, v in given.items() if v})
        check_eq(store, [(path, exp)], "shortcuts saved")
        ctx.nontrivial(len(given) > 1)
    elif case[0] == "folder":
        folders = {"StartMenu": "C:\\S", "MyDocuments": "C:\\D", "Desktop": "C:\\K"}
        wsh = types.SimpleNamespace(SpecialFolders=lambda n: folders.get(n, ""))
        check_eq(winutils.win_folder(wsh, case[1]), folders.get(case[1], ""), "folder")
    else:
        path = os.path.join(boot.REPO, "pandalone", "xlsutils.py")
        spec = importlib.util.spec_from_file_location("c20_xlsutils", path)
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        calls = []

        def dispatch(name):
            calls.append(name)
            if not avail:
                raise ComError(-2147221005, "Invalid class string")
            return object()

        w32 = types.ModuleType("win32com")
        w32.client = types.ModuleType("win32com.client")
        w32.client.dynamic = types.SimpleNamespace(Dispatch=dispatch)
        w32.client.Dispatch = dispatch
        mods = {"win32com": w32, "win32com.client": w32.client}
        olds = {k: sys.modules.get(k) for k in mods}
        sys.modules.update(mods)
        try:
            gots = []
            for avail in case[1]:
                gots.append(mod.check_excell_installed())
        finally:
            for k, v in olds.items():
                if v is None:
                    del sys.modules[k]
                else:
                    sys.modules[k] = v
        check_eq(gots, [case[1][0]] * len(case[1]), "Excel installed")
        check_eq(calls, ["Excel.Application"], "Excel launches")
        ctx.nontrivial(len(case[1]) > 1)


FACETS = [
    facet("imports", import_cases, check_import, quick=3000),
    facet("faults", fault_cases, check_fault, quick=3000),
    facet("many", many_cases, check_many, quick=300, thorough=6000),
    facet("removal", removal_cases, check_removal, quick=600, thorough=10000, shards=2),
    facet("cli", cli_cases, check_cli, quick=1500),
    facet("names", name_cases, check_name, quick=1000),
    facet("shell", shell_cases, check_shell, quick=500),
]
