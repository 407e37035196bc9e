"""mkbug(id, prop, needs, breaks, [(file, old, new)...], demo-python-source)"""
import json, os, shutil, subprocess, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/bash
# exit 0: the property holds; nonzero: it is broken
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$here/demo.py"
"""


def mkbug(id, prop, needs, breaks, edits, demo):
    d = os.path.join(HERE, "seeded", id)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="mkbug-")
    try:
        diff = ""
        files = []
        for f, old, new in edits:
            if f not in files:
                files.append(f)
                for side in "ab":
                    os.makedirs(os.path.dirname("%s/%s/%s" % (t, side, f)), exist_ok=True)
                    shutil.copy("/repo/" + f, "%s/%s/%s" % (t, side, f))
            p = "%s/b/%s" % (t, f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        for f in files:
            r = subprocess.run(
                ["diff", "-u", "a/" + f, "b/" + f], cwd=t, capture_output=True, text=True
            )
            diff += r.stdout
        open(d + "/patch.diff", "w").write(diff)
    finally:
        shutil.rmtree(t)
    open(d + "/demo.sh", "w").write(DEMO)
    head = "import sys\nsys.path.insert(0, '/repo')\nimport logging\nlogging.disable(50)\n"
    open(d + "/demo.py", "w").write(head + demo.lstrip("\n"))
    json.dump(
        dict(property=prop, needs=needs, what_it_breaks=breaks),
        open(d + "/meta.json", "w"),
        indent=1,
    )
