"""Author a planted bug: plant(id, prop, [(file, old, new)], demo_py, needs, breaks).

Works in a scratch clone of /repo; confirms that the demonstration passes on the
clean tree and fails on the changed one, that the stable tests still pass, and
says whether the property's quick check catches it.
"""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/plant_%d" % os.getpid()
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, HOME="/root", PATH="/opt/venv/bin:/usr/local/bin:/usr/bin:/bin", LANG="C.UTF-8", MPLBACKEND="Agg", BEEP_ENV="dev",
           TQDM_OFF="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", AWS_EC2_METADATA_DISABLED="true")
HEAD = '''import os, sys, tempfile, warnings
warnings.simplefilter("ignore")
sys.path.insert(0, os.getcwd())
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def stable(repo):
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    sh("rm -rf %s/out && mkdir -p %s/out" % (W, W))
    sh("timeout 840 python -m pytest beep -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -n 8 --dist loadfile "
       "-o junit_family=xunit2 --junitxml=%s/out/junit.xml" % W, cwd=repo, env=ENV)
    sh("/usr/bin/python3 /opt/vp/results.py %s/out/r.json junit:%s/out/junit.xml" % (W, W))
    return sorted(set(base) - set(json.load(open(W + "/out/r.json"))["passed"]))


def plant(id, prop, edits, demo, needs, breaks, tests=True, check=True):
    repo = W + "/repo"
    os.makedirs(W, exist_ok=True)
    if os.path.exists(repo):
        shutil.rmtree(repo)
    subprocess.check_call(["cp", "-a", os.environ.get("PLANT_REPO", "/repo"), repo])
    sh("git checkout -q -- . && git clean -qfd", cwd=repo)
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.py", "w").write(HEAD + demo)
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PATH=/opt/venv/bin:$PATH BEEP_ENV=dev MPLBACKEND=Agg TQDM_OFF=1 PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    a = sh("bash %s/demo.sh" % d, cwd=repo)
    for f, old, new in edits:
        s = open(os.path.join(repo, f)).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(os.path.join(repo, f), "w").write(s.replace(old, new))
    open(d + "/patch.diff", "w").write(sh("git diff", cwd=repo).stdout)
    root = sh("git rev-list --max-parents=0 HEAD", cwd=repo).stdout.strip()
    for f in sorted({e[0] for e in edits}):
        first = sh("git show %s:%s" % (root, f), cwd=repo).stdout.splitlines()
        for l in sh("git diff -U0 -- %s" % f, cwd=repo).stdout.splitlines():
            if l.startswith("-") and not l.startswith("---") and l[1:] not in first:
                print(id, "WARNING: changes a line the original does not have:", l)
    b = sh("bash %s/demo.sh" % d, cwd=repo)
    ok = a.returncode == 0 and b.returncode != 0
    print(id, prop, "demo clean rc", a.returncode, "patched rc", b.returncode, "" if ok else "BAD\n" + a.stdout[-1500:] + b.stdout[-800:])
    if check:
        c = sh("./run.sh %s quick" % prop, cwd=V, env=dict(os.environ, VERIF_REPO=repo, VERIF_EVIDENCE=W + "/ev"))
        print("   check:", "CAUGHT" if c.returncode == 1 else "MISSED", " | ".join(c.stdout.strip().splitlines()[1:3])[:300])
    if tests and ok:
        t = stable(repo)
        print("   stable tests:", "pass" if not t else "FAIL %s" % t)
    sys.stdout.flush()
    shutil.rmtree(repo)
