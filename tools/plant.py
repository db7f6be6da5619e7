#!/usr/bin/env python3
"""Turns the descriptions in tools/bugs*.py into /verif/seeded/<id>, keeping those that count.

  plant.py [ID...]   a scratch copy of /repo per bug: the patch must apply, remove only lines of
                     the original repository, parse as Python 2, pass the five stable tests, and its
                     demonstration must pass on the unchanged tree and fail on the changed one.
"""
import concurrent.futures, glob, importlib.util, json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
REPO = "/repo"
ENV = dict(os.environ, LC_ALL="C.UTF-8", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH="/opt/vp/py2",
           PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")
PY = "/opt/venv/bin/python"
BASE = subprocess.check_output(["git", "-C", REPO, "rev-list", "--max-parents=0", "HEAD"], text=True).split()[0]

PRELUDE = '''import os, sys, math, warnings
warnings.simplefilter("ignore")
import py2compat
REPO = os.path.realpath(os.environ["REPO"])
py2compat.REPO = REPO
py2compat.ROOT = os.path.join(REPO, "python")
sys.path.insert(0, os.path.join(REPO, "python"))
import numpy as np
import aces.clf as clf

def near(a, b, tol=1e-5):
    a, b = [float(x) for x in a], [float(x) for x in b]
    return len(a) == len(b) and all(
        (math.isnan(x) and math.isnan(y)) or x == y or abs(x - y) <= tol * max(1.0, abs(y)) for x, y in zip(a, b))

def expect(ok, *what):
    if not ok:
        sys.__stdout__.write("FAILED: %s\\n" % " ".join(map(str, what)))
        sys.__stdout__.flush()
        os._exit(1)

def plist(*nodes):
    pl = clf.ProcessList()
    for n in nodes:
        pl.addProcess(n)
    return pl

'''
SH = '''#!/bin/bash
# Run with cwd /repo: 0 where the property holds, 1 where it is broken.
here=$(cd "$(dirname "$0")" && pwd)
export REPO=$PWD
export LC_ALL=C.UTF-8 PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/opt/vp/py2
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
cd "$work" || exit 2
/opt/venv/bin/python "$here/demo.py"
'''
TESTPLUG = '''import os, py2compat
py2compat.REPO = os.environ["SCRATCH"]
py2compat.ROOT = os.environ["SCRATCH"] + "/python"
'''
STABLE = json.load(open("/opt/vp/BASELINE.json"))

def bugs():
    out = []
    for f in sorted(glob.glob(HERE + "/bugs*.py")):
        spec = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
        m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        out += m.BUGS
    ids = [b["id"] for b in out]
    assert len(set(ids)) == len(ids), [i for i in ids if ids.count(i) > 1]
    return out

def plant(b):
    top = tempfile.mkdtemp(prefix="plant-", dir="/tmp"); w = top + "/repo"
    try:
        shutil.copytree(REPO, w, symlinks=True)
        for path, old, new in b["edits"]:
            p = "%s/python/aces/%s" % (w, path)
            t = open(p, encoding="utf8").read()
            if t.count(old) != b.get("count", 1):
                return "edit of %s matches %d times: %r" % (path, t.count(old), old[:60])
            open(p, "w", encoding="utf8").write(t.replace(old, new))
        diff = subprocess.check_output(["git", "-C", w, "diff"], text=True)
        cur, foreign, removed = None, [], 0
        base = []
        for l in diff.splitlines():
            if l.startswith("--- a/"):
                cur = l[6:]
                base = subprocess.check_output(["git", "-C", w, "show", BASE + ":" + cur], text=True).splitlines()
            elif l.startswith("-") and not l.startswith("---"):
                removed += 1
                if l[1:] not in base:
                    foreign.append(l)
        if foreign or not removed:
            return "removes lines that are not of the original: %s" % foreign if foreign else "removes no line"
        r = subprocess.run(["/usr/bin/jython", "-Dpython.cachedir.skip=true", "-c",
                            "import sys\nfor f in sys.argv[1:]: compile(open(f).read(), f, 'exec')"] +
                           sorted({"%s/python/aces/%s" % (w, e[0]) for e in b["edits"]}),
                           capture_output=True, text=True)
        if r.returncode:
            return "does not parse: " + r.stderr[-400:]
        d = top + "/seed"; os.mkdir(d)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.py", "w").write(PRELUDE + b["demo"].strip() + "\n")
        open(d + "/demo.sh", "w").write(SH); os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        for stub in b.get("stubs", []):
            shutil.copy(VERIF + "/harness/stubs/" + stub, d)
        clean = subprocess.run(["bash", d + "/demo.sh"], cwd=REPO, env=ENV, capture_output=True, text=True, timeout=300)
        if clean.returncode != 0:
            return "demonstration fails on the unchanged tree: " + (clean.stdout + clean.stderr)[-600:]
        bad = subprocess.run(["bash", d + "/demo.sh"], cwd=w, env=ENV, capture_output=True, text=True, timeout=300)
        if bad.returncode == 0:
            return "demonstration passes on the changed tree"
        if "FAILED:" not in bad.stdout and not b.get("raises"):
            return "demonstration breaks otherwise: " + (bad.stdout + bad.stderr)[-600:]
        open(top + "/testplug.py", "w").write(TESTPLUG)
        os.mkdir(top + "/t")
        env = dict(ENV, SCRATCH=w, TMPDIR=top + "/t", PYTHONPATH="/opt/vp/py2:" + top)
        r = subprocess.run([PY, "-m", "pytest", "-q", "-p", "testplug", "-p", "py2compat", "-p", "pytest_timeout", "--assert=plain",
                            "-p", "no:cacheprovider", "--timeout=300", "--rootdir=" + w + "/python",
                            "-o", "python_files=UnitTests*.py", "aces/clf"], cwd=w + "/python", env=env, capture_output=True, text=True)
        if "5 passed" not in r.stdout:
            return "tests: " + r.stdout[-500:]
        dest = VERIF + "/seeded/" + b["id"]
        shutil.rmtree(dest, ignore_errors=True)
        shutil.copytree(d, dest)
        return "planted: " + bad.stdout.strip().splitlines()[-1][:150] if bad.stdout.strip() else "planted"
    finally:
        shutil.rmtree(top, ignore_errors=True)

if __name__ == "__main__":
    os.makedirs(VERIF + "/seeded", exist_ok=True)
    want = sys.argv[1:]
    todo = [b for b in bugs() if (b["id"] in want if want else not os.path.exists(VERIF + "/seeded/" + b["id"]))]
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for b, r in zip(todo, ex.map(plant, todo)):
            print(b["id"], r, flush=True)
