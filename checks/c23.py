"""C23: plugins are discovered, loaded & installed, independently of each other."""
import itertools
import logging
import os
import re
import shutil
import sys
import tempfile

from hypothesis import strategies as st

from pandalone import xleash
from vlib.core import HarnessError, check_eq, facet, fail

import pkg_resources

ID = "C23"
RULE = """
plugins: 1-3 distributions are written in a scratch folder (metadata & modules) with 0-6 plugins in all, which just log, add
filters, or backends, or fail while loading or installing in various ways; discovered 1-3 times, some of them appearing later,
in the group of the library or another; the log of events, the stages recorded, and the filters & backends in effect when
lassoing are compared with a model.  crowd: the same with 10-60 plugins.
Non-trivial: 2+ plugins, one of them failing or discovered again.
"""
ASSUMPTIONS = [
    "setuptools (pkg_resources) or the standard library discover the distributions",
    "names of plugins are unique",
]

MOD = """
import sys
log = sys.modules[{hook!r}]
log.events.append(("load", {name!r}))
{body}
def install():
    log.events.append(("install", {name!r}))
    {act}

class Nested:
    install = staticmethod(install)

plain = "not callable"
"""
#: ``kind: (body, act, attribute)``
KINDS = {
    "func": ("", "pass", "install"),
    "nested": ("", "pass", "Nested.install"),
    "module": ("", "pass", None),
    "plain": ("", "pass", "plain"),
    "filter": (
        "",
        "from pandalone import xleash; xleash.installed_filters.update({{{filt!r}: {{'func': lambda ranger, lasso: lasso._replace(values=[{name!r}, lasso.values])}}}})",
        "install",
    ),
    "backend": (
        "from pandalone import xleash\n"
        "class Backend(xleash.io.backend.ABCBackend):\n"
        "    def bid(self, wb_url):\n        return 1000 if wb_url and {ext!r} in wb_url else None\n"
        "    def open_sheet(self, wb_url, sheet_id):\n        return xleash.ArraySheet([[{name!r}]])\n"
        "    def list_sheetnames(self, wb_url):\n        return [{name!r}]\n"
        "BE = Backend()",
        "BE in xleash.io_backends or xleash.io_backends.append(BE)",
        "install",
    ),
    "noattr": ("", "pass", "missing"),
    "nomodule": (None, None, "install"),
    "loaderr": ("raise {exc}", "pass", "install"),
    "syntax": ("def x(:", "pass", "install"),
    "insterr": ("", "raise {exc}", "install"),
    # Sharing the installer of the one before it
    "alias": (None, None, "install"),
    "shared": (None, None, "install"),
    "args": ("def needy(arg): log.events.append(('install', {name!r}))", "pass", "needy"),
}
EXCS = ["ValueError('x')", "ImportError('y')", "KeyError()", "RuntimeError()", "AssertionError()", "OSError(2, 'z')", "Exception()", "StopIteration()"]
_counter = itertools.count()


class Hook(object):
    def __init__(self):
        self.events = []


class Records(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self, logging.WARNING)
        self.texts = []

    def emit(self, record):
        self.texts.append(record.getMessage())


@st.composite
def cases(draw, crowd=False):
    kinds = sorted(set(KINDS) - {"shared"})
    n = draw(st.sampled_from([10, 25, 60])) if crowd else draw(st.integers(0, 6))
    names = draw(
        st.lists(
            st.builds("{}{}{}".format, st.sampled_from("abzABZ_"), st.sampled_from(["", "_", "-", ".x", " y"]), st.integers(0, 99)),
            min_size=n, max_size=n, unique=True,
        )
    )
    plugins = [
        (nm, draw(st.sampled_from(kinds + ["func", "filter"])), draw(st.sampled_from(EXCS)), draw(st.integers(0, 2)), draw(st.sampled_from([0, 0, 0, 1])))
        for nm in names
    ]
    return (plugins, draw(st.sampled_from([True, False])), draw(st.integers(1, 3)))


def resolved(plugins, times):
    """:return: plugins as ``(name, kind, exc, dist, stage, name of the module)``"""
    out = []
    for name, kind, exc, dist, stage in plugins:
        stage, mod = min(stage, times - 1), name
        if kind == "alias":
            shared = [p[0] for p in plugins if p[1] == "func" and min(p[4], times - 1) <= stage]
            kind, mod = ("shared", shared[0]) if shared else ("nomodule", name)
        out.append((name, kind, exc, dist, stage, mod))
    return out


def write_dist(folder, dist, group, plugins, tag):
    info = os.path.join(folder, "%s-1.0.dist-info" % dist)
    os.makedirs(info)
    with open(os.path.join(info, "METADATA"), "w") as fd:
        fd.write("Metadata-Version: 2.1\nName: %s\nVersion: 1.0\n" % dist)
    lines = ["[%s]" % group]
    for name, kind, exc, _, _, target in plugins:
        mod = modname(target, tag)
        body, act, attr = KINDS[kind]
        lines.append("%s = %s%s" % (name, mod, ":" + attr if attr else ""))
        if body is None:
            continue
        kw = {"name": name, "exc": exc, "filt": "F" + name, "ext": "." + mod + "."}
        with open(os.path.join(folder, mod + ".py"), "w") as fd:
            fd.write(MOD.format(hook="hook_" + tag, name=name, body=body.format(**kw), act=act.format(**kw)))
    with open(os.path.join(info, "entry_points.txt"), "w") as fd:
        fd.write("\n".join(lines) + "\n")


def modname(name, tag):
    return "m_%s_%s" % (tag, re.sub(r"\W", lambda m: "%02x" % ord(m.group()), name))


def fails_loading(kind):
    return kind in ("noattr", "nomodule", "loaderr", "syntax")


def check_plugins(case, ctx):
    plugins, own, times = case
    plugins = resolved(plugins, times)
    tag = "%i_%i" % (os.getpid(), next(_counter))
    group = "vverif.%s" % tag if own else xleash._PLUGIN_GROUP_NAME
    hook = sys.modules["hook_" + tag] = Hook()
    tmp = tempfile.mkdtemp(prefix="vC23-")
    filters, backends, states = dict(xleash.installed_filters), list(xleash.io_backends), dict(xleash._plugins_installed)
    path, entries, ws = list(sys.path), list(pkg_resources.working_set.entries), pkg_resources.working_set
    real = sum(1 for _ in ws.iter_entry_points(group))
    loaded = set()
    records, logger = Records(), logging.getLogger("pandalone")
    disabled, propagate = logging.root.manager.disable, logger.propagate
    logging.disable(logging.NOTSET)
    logger.propagate = False
    logger.addHandler(records)
    try:
        present = []
        for k in range(times):
            # Plugins of this stage
            for d in range(3):
                mine = [p for p in plugins if p[3] == d and p[4] == k]
                if mine:
                    folder = os.path.join(tmp, "d%i_%i" % (d, k))
                    os.makedirs(folder)
                    write_dist(folder, "vdist%s%i.%i" % (tag.replace("_", "."), d, k), group, mine, tag)
                    sys.path.append(folder)
                    ws.add_entry(folder)
                    present += mine
            present.sort(key=lambda p: p[0])
            del hook.events[:], records.texts[:]
            found = [ep.name for ep in ws.iter_entry_points(group)]
            if len(found) != real + len(present):
                raise HarnessError("%s found instead of %s" % (found, present))
            what = "%s, %s time" % ([p[:3] for p in present], k + 1)
            if not found:
                try:
                    xleash._init_plugins(group)
                except ValueError:
                    continue
                fail("no error without plugins")
            if own:
                xleash._init_plugins(group)
            else:
                xleash._init_plugins()
            # Modules are executed once, unless failed.
            exp = []
            for _, kind, _, _, _, mod in present:
                if kind not in ("nomodule", "syntax") and mod not in loaded:
                    exp.append(("load", mod))
                    if kind != "loaderr":
                        loaded.add(mod)
            exp += [("install", p[5]) for p in present if not fails_loading(p[1]) and p[1] not in ("module", "plain", "args")]
            check_eq(hook.events, exp, "events of %s", what)
            for name, kind, _, _, _, mod in present:
                stage = 0 if fails_loading(kind) else 1 if kind in ("module", "plain", "insterr", "args") else 2
                text = re.compile(r"(?<![\w. -])%s = %s\b" % (re.escape(name), modname(mod, tag)))
                got = [v for s, v in xleash._plugins_installed.items() if text.search(s)]
                check_eq(got, [stage], "stages of %s of %s", name, what)
                failed = fails_loading(kind) or kind in ("insterr", "args")
                check_eq(any(text.search(t) for t in records.texts), failed, "failure of %s logged, of %s", name, what)
            # In effect
            for name, kind, _, _, _, mod in present:
                ref = "#A1:" + '"F%s"' % name
                try:
                    got = xleash.lasso(ref, sheet=xleash.ArraySheet([[5]]))
                except ValueError as ex:
                    if kind == "filter":
                        fail("filter %s of %s: %s", name, what, ex)
                else:
                    check_eq((kind, got), ("filter", [name, 5]), "filter %s of %s", name, what)
                url = "http://ex.org/some.%s.x" % modname(name, tag)
                if kind == "backend":
                    check_eq(xleash.lasso(url + "#A1"), name, "backend %s of %s", name, what)
            new = [b for b in xleash.io_backends if b not in backends]
            check_eq(len(new), sum(p[1] == "backend" for p in present), "backends added by %s", what)
            for b in backends:
                check_eq(sum(type(x) is type(b) for x in xleash.io_backends), 1, "backends %s", type(b).__name__)
            missing = set(filters) - set(xleash.installed_filters)
            if missing:
                fail("filters %s lost by %s", missing, what)
    finally:
        logger.removeHandler(records)
        logger.propagate = propagate
        logging.disable(disabled)
        shutil.rmtree(tmp, ignore_errors=True)
        xleash.installed_filters.clear()
        xleash.installed_filters.update(filters)
        xleash.io_backends[:] = backends
        xleash._plugins_installed.clear()
        xleash._plugins_installed.update(states)
        sys.path[:] = path
        for folder in [e for e in ws.entries if e not in entries]:
            ws.entries.remove(folder)
            for key in ws.entry_keys.pop(folder, ()):
                dist = ws.by_key.pop(key, None)
                norm = getattr(ws, "normalized_to_canonical_keys", {})
                for k in [k for k, v in norm.items() if v == key]:
                    del norm[k]
        for mod in [m for m in sys.modules if m.startswith("m_%s_" % tag)] + ["hook_" + tag]:
            sys.modules.pop(mod, None)
    kinds = [p[1] for p in plugins]
    ctx.label(*set(kinds))
    ctx.nontrivial(len(plugins) > 1 and (times > 1 or any(fails_loading(k) or k in ("insterr", "args") for k in kinds)))


FACETS = [
    facet("plugins", cases, check_plugins, quick=1200, thorough=30000),
    facet("crowd", lambda: cases(True), check_plugins, quick=60, thorough=1500),
]
