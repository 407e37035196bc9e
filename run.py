#!/usr/bin/env python
"""
run.py PROP [--tier quick|thorough] [--seed N] [--only FACET,..] [--scale X]
run.py replay FILE
"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import boot  # noqa: E402


def main(argv):
    boot.reexec_if_needed()
    try:
        boot.setup()
        from vlib import core
        import argparse

        ap = argparse.ArgumentParser()
        ap.add_argument("prop")
        ap.add_argument("file", nargs="?")
        ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
        ap.add_argument("--seed", type=int, default=None)
        ap.add_argument("--only")
        ap.add_argument("--scale", type=float, default=1.0)
        a = ap.parse_args(argv)
        if a.prop == "selftest":
            import json

            with open(os.path.join(boot.VERIF, "MANIFEST.json")) as fd:
                props = [c["property"] for c in json.load(fd)["checks"]]
            for p in props:
                mod = core.load_check(p)
                assert mod.ID == p and mod.FACETS, p
                for f in mod.FACETS:
                    f.strategy().validate()
            print("selftest OK: %s" % " ".join(props))
            return 0
        if a.prop == "replay":
            return core.replay(a.file)
        seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED") or 1)
        tier = a.tier if a.tier in ("quick", "thorough") else "quick"
        return core.run_property(
            a.prop, tier, seed, a.only and a.only.split(","), a.scale
        )
    except SystemExit:
        raise
    except BaseException:
        import traceback

        sys.stderr.write("HARNESS ERROR:\n" + traceback.format_exc())
        return 2


if __name__ == "__main__":
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
