#!/usr/bin/env python3
"""bug.py [--notests] ID...: confirms planted bugs (applies them in /repo, and reverts)"""
import json, os, subprocess, sys, tempfile, shutil

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
notests = "--notests" in args
ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(HERE + "/seeded"))


def run(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def demo(d):
    t = tempfile.mkdtemp(prefix="demo-")
    try:
        for f in os.listdir(d):
            if not f.endswith((".diff", ".patch")) and f != "meta.json":
                shutil.copy(os.path.join(d, f), t)
        r = run("bash %s/demo.sh" % t, cwd="/repo", timeout=300)
        return r.returncode, (r.stdout + r.stderr)[-300:]
    finally:
        shutil.rmtree(t)


for i in ids:
    d = "%s/seeded/%s" % (HERE, i)
    prop = json.load(open(d + "/meta.json"))["property"]
    assert not run("git -C /repo status --porcelain").stdout.strip(), "/repo dirty"
    rc0, out0 = demo(d)
    r = run("git -C /repo apply %s/patch.diff" % d)
    if r.returncode:
        print(i, prop, "PATCH FAILS", r.stderr[:300])
        continue
    try:
        rc1, out1 = demo(d)
        t = "skipped" if notests else run("bash %s/tools/tests_ok.sh" % HERE).stdout.strip()
        c = run("/opt/venv/bin/python run.py %s --tier quick" % prop, cwd=HERE, env=dict(os.environ, VERIF_SEED="1"))
        line = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
        msg = [l for l in c.stdout.splitlines() if l.startswith("  facet")]
    finally:
        run("git -C /repo checkout -- .")
    ok = rc0 == 0 and rc1 != 0 and (notests or "missing: []" in t)
    print(i, prop, "VALID" if ok else "INVALID demo %s/%s %s" % (rc0, rc1, out0), "| tests:", t, "|", "CAUGHT" if c.returncode == 1 and line else "MISSED rc=%s %s" % (c.returncode, c.stderr[-500:]), "|", " ".join(m[:160] for m in msg))
    sys.stdout.flush()
