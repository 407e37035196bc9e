#!/usr/bin/env python3
"""Writes MANIFEST.json for the checks that exist; the rest is listed as not claimed."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"

TECH = {
    "C01": "property-based testing: grammar-driven texts with known parts, mutation fuzzing against an independent recognizer",
    "C02": "property-based testing against a naive unbounded-grid reference model",
    "C03": "property-based testing against a naive reference model, plus metamorphic relations",
    "C04": "property-based testing: reference model and metamorphic (mirror/transpose/repeat) relations",
    "C05": "property-based differential testing: Excel files on disk against in-memory sheets",
    "C06": "stateful model-based testing of operation histories",
    "C07": "property-based testing: algebraic laws and a reference model of reshaping",
    "C08": "property-based testing against a reference interpreter of element-wise filters",
    "C09": "property-based testing: pipes of recording/failing filters against a reference interpreter",
    "C10": "property-based testing against an independent model of path mapping, plus metamorphic relations",
    "C11": "stateful model-based testing of path-step histories",
    "C12": "property-based testing: round-trips, enumeration and histories of sets against a naive document model",
    "C13": "property-based differential testing against the standard jsonschema validator",
    "C14": "property-based testing against a reference filler of defaults",
    "C15": "property-based testing: reference merge, histories of build stages, deep-copy comparison of inputs",
    "C16": "property-based round-trip testing",
    "C17": "property-based testing: generated component functions against their known references",
    "C18": "property-based testing: round-trips and file-system histories in scratch directories",
    "C19": "property-based testing: per-input laws and constructed texts with known parts",
    "C21": "property-based differential testing of the filters against pandas.read_excel() and a model of pairs",
    "C22": "property-based differential testing against the standard constructors",
    "C23": "property-based testing with fault injection: generated distributions against a model of discovery",
    "C24": "property-based testing: metamorphic (text against context) and differential (used against new Ranger) histories",
    "C20": "stateful property-based testing with fault injection: simulated Excel (COM stand-ins) against a reference model",
}
NOTE = (
    "Generated-input search: finds violations within the bounds stated in DESIGN.md and in the "
    "evidence's `rule`, never proves absence. Trusts the oracle in checks/%s.py and vlib/, CPython, "
    "numpy, pandas and Hypothesis."
)


def main():
    checks, na = [], []
    with open(os.path.join(HERE, "properties.jsonl")) as fd:
        props = [json.loads(l) for l in fd if l.strip()]
    for p in props:
        i = p["id"]
        if os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
            checks.append(
                dict(
                    property=i,
                    quick_cmd="%s run.py %s --tier quick" % (PY, i),
                    thorough_cmd="%s run.py %s --tier thorough" % (PY, i),
                    evidence_file="evidence/%s.json" % i,
                    technique=TECH[i],
                    level="exploration",
                    level_note=NOTE % i.lower(),
                )
            )
        else:
            na.append(dict(property=i, reason="check not built yet"))
    m = dict(
        version=1,
        setup_cmd="%s run.py selftest" % PY,
        checks=checks,
        not_applicable=na,
        notes="No hooks in /repo. Python is not compiled: every check imports /repo's working tree afresh.",
    )
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fd:
        json.dump(m, fd, indent=1)
        fd.write("\n")


main()
