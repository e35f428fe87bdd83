"""Plants a bug: plant(id, prop, edits, demo, needs, breaks) writes seeded/<id>/ and confirms it.

For building the seeded changes only; no check uses it.  Applies the change to /repo, builds, runs the
stable tests, the demo and the property's check, and undoes the change.
"""
import json, os, shutil, subprocess, sys
SE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
REPO = "/repo"

def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, errors="replace", **k)

def demo_rc(d):
    return sh("bash %s/demo.sh" % d, cwd=REPO, timeout=300)

def checks(prop):
    return sh("./run.sh %s" % prop, cwd=os.path.join(SE, ".."), env={**os.environ, "VERIF_SEED": "1", "VERIF_TIER": "quick"})

def plant(id, prop, edits, demo, needs, breaks, also=()):
    if len(sys.argv) > 1 and id not in sys.argv[1:]:
        return
    assert not sh("git -C /repo status --porcelain").stdout, "repo dirty"
    d = os.path.abspath(os.path.join(SE, id))
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.py", "w").write(demo.lstrip("\n"))
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 LC_ALL=C.UTF-8 PYTHONPATH="$PWD/src"\n'
        'exec timeout 250 /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    clean = demo_rc(d)
    try:
        for f, old, new in edits:
            p = os.path.join(REPO, "src/cwl_utils", f)
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        b = sh("bash /opt/vp/build.sh")
        t = sh("bash /opt/vp/test.sh /tmp/plant.json")
        bp = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); op = set(json.load(open("/tmp/plant.json"))["passed"])
        bad = demo_rc(d)
        res = {}
        for p in (prop,) + tuple(also):
            c = checks(p)
            v = [l for l in c.stdout.splitlines() if l.startswith(("VIOLATION", "INCONC"))]
            res[p] = (c.returncode, v[:3])
    finally:
        sh("git -C /repo checkout -- .")
    ok = clean.returncode == 0 and bad.returncode != 0 and b.returncode == 0 and not (bp - op)
    print(id, "OK" if ok else "NOT VALID", "clean", clean.returncode, "patched", bad.returncode, "build", b.returncode,
          "tests lost", sorted(bp - op)[:3], "| CHECK", res, flush=True)
    if not ok:
        print(clean.stderr[-600:], "\n---", bad.stderr[-600:])
