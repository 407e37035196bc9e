"""Facets, the runner, evidence and replay files.

A *property check* is a module ``checks/cNN.py`` with an ``ID``, a ``RULE``
(what a case is, and when it is non-trivial) and a list ``FACETS``.  A *facet*
is one generated-input search: a Hypothesis strategy producing plain-data cases
and a ``check(case, ctx)`` oracle that raises :class:`Violation` (or lets an
exception of the code under test escape) when the property is broken.

Cases are plain python literals, so that a shrunk failure is written into a
replay file that is evaluated *without* Hypothesis.
"""
import ast
import collections
import datetime
import hashlib
import importlib
import json
import math
import multiprocessing
import multiprocessing.connection
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

from . import boot
from .boot import HarnessError, VERIF

NWORKERS = int(os.environ.get("VERIF_JOBS", "8"))
#: CPU seconds one case may burn before it counts as non-terminating; typical
#: cases need well below 50 ms.
CASE_CPU_S = 30
MEM_BYTES = 3 << 30


class Violation(AssertionError):
    """The property does not hold for the case at hand."""


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def check_eq(got, exp, what, *args):
    if got != exp:
        fail("%s: got %r, expected %r" % (what % args if args else what, got, exp))


class Ctx(object):
    """Collects what a case was about."""

    def __init__(self):
        self.is_nontrivial = False
        self.labels = []
        self.known_ids = []

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def label(self, *names):
        self.labels.extend(names)

    def known(self, fid):
        """The case shows the (listed) known finding `fid`, and nothing else."""
        self.known_ids.append(fid)


Facet = collections.namedtuple(
    "Facet", "name strategy check quick thorough examples shards"
)


def facet(name, strategy, check, quick=1000, thorough=None, examples=(), shards=None):
    """
    :param strategy: a callable without args returning a hypothesis strategy
    :param quick: how many cases in the quick tier
    :param thorough: how many cases in the thorough tier (default: 20 x quick)
    :param examples: explicit cases to run before any generated one
    """
    return Facet(
        name, strategy, check, quick, thorough or quick * 20, list(examples), shards
    )


# --------------------------------------------------------------------------
# Case (de)serialization
# --------------------------------------------------------------------------
_CASE_NS = {
    "__builtins__": {},
    "nan": float("nan"),
    "inf": float("inf"),
    "datetime": datetime,
    "set": set,
    "frozenset": frozenset,
    "OrderedDict": collections.OrderedDict,
}


def case_to_text(case):
    return repr(case)


def case_from_text(text):
    try:
        return ast.literal_eval(text)
    except (ValueError, SyntaxError):
        return eval(text, dict(_CASE_NS))


# --------------------------------------------------------------------------
# One case
# --------------------------------------------------------------------------
class Hang(BaseException):
    pass


def run_case(fac, case):
    """Evaluates the oracle; returns the ctx; raises on violation."""
    ctx = Ctx()
    fac.check(case, ctx)
    return ctx


def describe(ex):
    tb = traceback.extract_tb(ex.__traceback__)
    where = ""
    for fr in reversed(tb):
        if fr.filename.startswith(boot.REPO):
            where = " [%s:%s in %s]" % (
                os.path.relpath(fr.filename, boot.REPO),
                fr.lineno,
                fr.name,
            )
            break
    if isinstance(ex, Violation):
        return str(ex)
    return "unexpected %s: %s%s" % (type(ex).__name__, str(ex)[:600], where)


# --------------------------------------------------------------------------
# A shard (runs in its own process)
# --------------------------------------------------------------------------
def shard_seed(seed, prop, name, i):
    h = hashlib.sha256(("%s|%s|%s|%s" % (seed, prop, name, i)).encode()).digest()
    return int.from_bytes(h[:6], "big")


class _ShardState(object):
    def __init__(self):
        self.evaluations = 0
        self.hashes = set()
        self.samples = []
        self.labels = collections.Counter()
        self.known = collections.Counter()
        self.truncated = 0
        self.fail = None  # (case, message, traceback)
        self.error = None

    def dump(self, path):
        d = dict(
            evaluations=self.evaluations,
            hashes=sorted(self.hashes),
            samples=self.samples,
            labels=dict(self.labels),
            known=dict(self.known),
            truncated=self.truncated,
            fail=self.fail,
            error=self.error,
        )
        tmp = path + ".tmp"
        with open(tmp, "w") as fd:
            json.dump(d, fd)
        os.replace(tmp, path)


def _run_shard(prop, fac, seed, n, shard, deadline, out):
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings
    from hypothesis.internal.conjecture.engine import ConjectureRunner

    with_examples = shard == 0
    # The code under test may chat, failures are reported by file.
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)
    if shard % 2 == 0 and hasattr(ConjectureRunner, "generate_mutations_from"):
        # Hypothesis turns most examples into variants of the previous one (by
        # duplicating parts of it), which costs diversity; keep it on in half
        # of the shards, since equal parts are interesting, too.
        ConjectureRunner.generate_mutations_from = lambda self, data: None

    st = _ShardState()
    resource.setrlimit(resource.RLIMIT_AS, (MEM_BYTES, MEM_BYTES))
    current = [None]

    def on_alarm(signum, frame):
        # Cannot be swallowed by an ``except Exception`` of the code under
        # test, nor can it be shrunk: report the case as it is, and leave.
        st.fail = (
            case_to_text(current[0]),
            "no result after %s s of CPU time (a case takes milliseconds)" % CASE_CPU_S,
            "".join(traceback.format_stack(frame)[-8:]),
        )
        st.dump(out)
        os._exit(0)

    signal.signal(signal.SIGVTALRM, on_alarm)

    def one(case):
        if deadline and time.time() > deadline:
            st.truncated += 1
            return
        current[0] = case
        signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S)
        st.evaluations += 1
        try:
            ctx = run_case(fac, case)
        except HarnessError:
            raise
        except Exception as ex:
            if not isinstance(ex, hypothesis.errors.HypothesisException):
                st.fail = (
                    case_to_text(case),
                    describe(ex),
                    "".join(traceback.format_exception(ex)[-12:]),
                )
            raise
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        st.labels.update(ctx.labels)
        st.known.update(ctx.known_ids)
        if ctx.is_nontrivial:
            txt = case_to_text(case)
            h = hashlib.blake2b(txt.encode("utf8", "replace"), digest_size=8)
            h = h.hexdigest()
            if h not in st.hashes:
                st.hashes.add(h)
                k = len(st.hashes)
                if k in (1, 20, 120):
                    st.samples.append(txt if len(txt) < 600 else txt[:600] + "...")

    try:
        if with_examples:
            for case in fac.examples:
                one(case)
        if n:

            @hypothesis.seed(seed)
            @settings(
                max_examples=n,
                database=None,
                deadline=None,
                print_blob=False,
                report_multiple_bugs=False,
                phases=(Phase.generate, Phase.shrink),
                suppress_health_check=[
                    HealthCheck.too_slow,
                    HealthCheck.data_too_large,
                    HealthCheck.large_base_example,
                ],
            )
            @hypothesis.given(fac.strategy())
            def test(case):
                one(case)

            try:
                test()
            except hypothesis.errors.HypothesisException as ex:
                # Flaky & co.: the failing case is already recorded.
                if not st.fail:
                    raise HarnessError("%s: %s" % (type(ex).__name__, ex))
    except HarnessError as ex:
        st.fail = None
        st.error = "".join(traceback.format_exception(ex))
    except BaseException as ex:
        if not st.fail:
            st.error = "".join(traceback.format_exception(ex))
    st.dump(out)


# --------------------------------------------------------------------------
# Known findings
# --------------------------------------------------------------------------
def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as fd:
        return [k for k in json.load(fd)["known"] if k["property"] == prop]


def report_known(mod):
    """Re-runs the listed input of every known finding of this property."""
    out = []
    for k in load_known(mod.ID):
        demo = getattr(mod, "KNOWN_DEMOS", {}).get(k["id"])
        if demo is None:
            raise HarnessError("no demonstration for known finding %s" % k["id"])
        if demo():
            line = "KNOWN-FINDING: property=%s %s: %s" % (mod.ID, k["id"], k["what"])
            out.append(line)
            print(line)
    return out


# --------------------------------------------------------------------------
# The runner
# --------------------------------------------------------------------------
def load_check(prop):
    return importlib.import_module("checks.%s" % prop.lower())


def write_replay(prop, fac, seed, n, failure, tag):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%s.json" % (prop, fac.name, tag))
    case, msg, tb = failure
    with open(path, "w") as fd:
        json.dump(
            dict(
                property=prop,
                facet=fac.name,
                case=case,
                message=msg,
                traceback=tb,
                shard=dict(seed=seed, examples=n),
                how="/opt/venv/bin/python /verif/run.py replay %s" % path,
            ),
            fd,
            indent=1,
        )
    return path


def run_property(prop, tier, seed, only=None, scale=1.0):
    t0 = time.time()
    mod = load_check(prop)
    known_lines = report_known(mod)
    deadline = t0 + (700 if tier == "quick" else 6 * 3600)
    facets = [f for f in mod.FACETS if not only or f.name in only]

    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    tasks = []
    for fac in facets:
        n = int(math.ceil((fac.quick if tier == "quick" else fac.thorough) * scale))
        nsh = fac.shards or max(1, min(NWORKERS, n // 50))
        if tier == "thorough":
            nsh = max(nsh, NWORKERS)
        per = int(math.ceil(n / float(nsh)))
        for i in range(nsh):
            tasks.append((fac, i, shard_seed(seed, prop, fac.name, i), per))
    # Interleave, so that the slow facets do not end up all last.
    tasks.sort(key=lambda t: t[1])

    ctx = multiprocessing.get_context("fork")
    running, results, dead = {}, [], []
    violations = []
    todo = list(tasks)
    fails_seen = set()
    try:
        while todo or running:
            while todo and len(running) < NWORKERS:
                fac, i, sd, per = todo.pop(0)
                if fac.name in fails_seen:
                    continue
                out = os.path.join(tmp, "%s-%d.json" % (fac.name, i))
                p = ctx.Process(
                    target=_run_shard,
                    args=(prop, fac, sd, per, i, deadline, out),
                )
                p.start()
                running[p.sentinel] = (p, fac, i, sd, per, out)
            if not running:
                break
            for s in multiprocessing.connection.wait(list(running), timeout=5):
                p, fac, i, sd, per, out = running.pop(s)
                p.join()
                if not os.path.exists(out):
                    dead.append((fac.name, i, p.exitcode))
                    continue
                with open(out) as fd:
                    r = json.load(fd)
                r["facet"], r["shard"] = fac.name, i
                results.append(r)
                if r["fail"] and fac.name not in fails_seen:
                    fails_seen.add(fac.name)
                    path = write_replay(prop, fac, sd, per, r["fail"], "s%d" % i)
                    violations.append((fac.name, path, r["fail"][1]))
    finally:
        for p, *_ in running.values():
            p.kill()
        shutil.rmtree(tmp, ignore_errors=True)

    errors = [r for r in results if r["error"]]
    hashes = set()
    labels = collections.Counter()
    known = collections.Counter()
    per_facet = collections.OrderedDict()
    samples = []
    evaluations = truncated = 0
    results.sort(key=lambda r: (r["facet"], r["shard"]))
    for fac in facets:
        rs = [r for r in results if r["facet"] == fac.name]
        fh = set()
        fl = collections.Counter()
        for r in rs:
            fh.update(r["hashes"])
            fl.update(r["labels"])
            known.update(r["known"])
            truncated += r["truncated"]
        ev = sum(r["evaluations"] for r in rs)
        evaluations += ev
        hashes.update(fac.name + h for h in fh)
        per_facet[fac.name] = dict(
            evaluations=ev, distinct_nontrivial=len(fh), labels=dict(sorted(fl.items()))
        )
        ss = [s for r in rs for s in r["samples"]]
        samples.extend("%s: %s" % (fac.name, s) for s in ss[:2])
    wall = time.time() - t0
    evidence = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level="exploration",
        coverage=dict(
            evaluations=evaluations,
            distinct_nontrivial=len(hashes),
            rule=" ".join(mod.RULE.split()),
            samples=samples or ["(none)"],
            facets=per_facet,
            excluded_as_known_findings=dict(known),
            truncated_by_time_budget=truncated,
            known_findings_reproduced=known_lines,
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
        wall_s=round(wall, 2),
        violations=len(violations),
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fd:
        json.dump(evidence, fd, indent=1)

    for name, path, msg in violations:
        print("  facet %s: %s" % (name, msg[:2000]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    if violations:
        return 1
    if errors or dead:
        for r in errors:
            sys.stderr.write("HARNESS ERROR in %s:\n%s\n" % (r["facet"], r["error"]))
        for d in dead:
            sys.stderr.write("HARNESS ERROR: shard died: %r\n" % (d,))
        return 2
    print(
        "OK property=%s tier=%s seed=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs"
        % (prop, tier, seed, evaluations, len(hashes), wall)
    )
    return 0


def replay(path):
    with open(path) as fd:
        d = json.load(fd)
    mod = load_check(d["property"])
    fac = [f for f in mod.FACETS if f.name == d["facet"]][0]
    try:
        run_case(fac, case_from_text(d["case"]))
    except HarnessError:
        raise
    except Exception as ex:
        traceback.print_exc()
        print("  facet %s: %s" % (fac.name, describe(ex)))
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    # The failure needed what earlier cases left behind: run the whole shard.
    out = tempfile.mktemp()
    sh = d["shard"]
    p = multiprocessing.get_context("fork").Process(
        target=_run_shard,
        args=(d["property"], fac, sh["seed"], sh["examples"], True, None, out),
    )
    p.start()
    p.join()
    with open(out) as fd:
        r = json.load(fd)
    os.unlink(out)
    if r["fail"]:
        print("  facet %s: %s" % (fac.name, r["fail"][1]))
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    print("replay: the property holds for this case")
    return 0
