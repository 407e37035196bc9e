"""Process bootstrap: determinism, import paths, hypothesis.

Must be imported before anything from numpy/pandas/pandalone.
"""
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
#: The tree under test.  Registered commands never set VERIF_REPO; it exists so
#: that the maintainer of these checks can try them on a scratch copy.
REPO = os.path.abspath(os.environ.get("VERIF_REPO", "/repo"))
VT_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

_ENV = {
    "PYTHONHASHSEED": "0",
    "PYTHONDONTWRITEBYTECODE": "1",
    "TZ": "UTC",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "LC_ALL": "C.UTF-8",
    "no_proxy": "*",
}


class HarnessError(Exception):
    """Something is wrong with the check itself (exit 2, never a violation)."""


def reexec_if_needed():
    if any(os.environ.get(k) != v for k, v in _ENV.items()):
        env = dict(os.environ)
        env.update(_ENV)
        env.pop("PYTHONPATH", None)
        os.execve(sys.executable, [sys.executable] + sys.argv, env)


def setup():
    sys.dont_write_bytecode = True
    import logging
    import warnings

    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)

    # The package under test comes from the working tree, never from a copy.
    sys.path[:] = [p for p in sys.path if p not in ("", REPO)]
    sys.path.insert(0, REPO)
    sys.path.insert(1, VERIF)

    try:
        import hypothesis  # noqa: F401
    except ImportError:
        # Not in the build's venv: borrow it (and its one dependency) from the
        # tooling venv, without leaving the latter on the path.
        sys.path.append(VT_SITE)
        try:
            import sortedcontainers  # noqa: F401
            import hypothesis  # noqa: F401
            import hypothesis.strategies  # noqa: F401
        except ImportError as ex:
            raise HarnessError("hypothesis not importable: %s" % ex)
        finally:
            sys.path.remove(VT_SITE)
    import hypothesis.internal.conjecture.engine as eng

    if hasattr(eng, "MAX_SHRINKING_SECONDS"):
        eng.MAX_SHRINKING_SECONDS = 45

    import pandalone

    got = os.path.dirname(os.path.dirname(os.path.abspath(pandalone.__file__)))
    if got != REPO:
        raise HarnessError("pandalone imported from %s, not %s" % (got, REPO))
