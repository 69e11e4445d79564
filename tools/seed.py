"""Development aid: make and confirm planted bugs (see /verif/seeded).

usage: seed.py SPECFILE [id ...]
SPECFILE defines SEEDS = {id: dict(property=, edits=[(file, old, new), ...], demo="python text",
needs=, what=)}.  The patch is made in /tmp/seed (a copy of /repo, removed afterwards); the demonstration
must pass on the copy without and fail with the change; the stable tests must pass with it.
"""
import json, os, re, runpy, shutil, subprocess, sys

COPY = "/tmp/seed"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sh = lambda c, **k: subprocess.run(c, shell=True, text=True, capture_output=True, **k)
seeds = runpy.run_path(sys.argv[1])["SEEDS"]
ids = sys.argv[2:] or list(seeds)
sh("mkdir -p %s && rsync -a --delete --exclude=.pytest_cache %s/ %s/" % (COPY, REPO, COPY))
ts = open("/opt/vp/test.sh").read().replace("cd /repo", "cd " + COPY).replace(
    'bash /opt/vp/build.sh || echo "test.sh: build.sh failed, the tests run all the same" >&2', "")
open("/tmp/w/seedtest.sh", "w").write(ts)
def build():
    """the compiled parser of the copy"""
    x = COPY + "/rsciio/bruker/unbcf_fast"
    p = sh("/opt/venv/bin/python -m cython -3 %s.pyx -o /tmp/w/unbcf_fast.c && gcc -O1 -w -shared -fPIC -I/usr/include/python3.12 /tmp/w/unbcf_fast.c -o %s.cpython-312-x86_64-linux-gnu.so" % (x, x))
    assert not p.returncode, p.stderr


for sid in ids:
    s = seeds[sid]
    d = VERIF + "/seeded/" + sid
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.py", "w").write(s["demo"].lstrip())
    open(d + "/demo.sh", "w").write('#!/bin/bash\nD=$(cd "$(dirname "$0")" && pwd)\n'
        'T=$(mktemp -d)\ntrap \'rm -rf "$T"\' EXIT\n'
        'TMPDIR="$T" NUMBA_CACHE_DIR="$T" PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python "$D/demo.py"\n')
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what"]},
              open(d + "/meta.json", "w"), indent=1)
    sh("git checkout -q -- .", cwd=COPY)
    pyx = any(e[0].endswith(".pyx") for e in s["edits"])
    if pyx:
        build()
    p = sh("bash %s/demo.sh" % d, cwd=COPY)
    if p.returncode:
        print(sid, "DEMO FAILS UNCHANGED", p.stdout[-300:], p.stderr[-600:]); continue
    ok = True
    for f, old, new in s["edits"]:
        t = open(COPY + "/" + f).read()
        if t.count(old) != 1:
            print(sid, "TEXT", t.count(old), repr(old)); ok = False; break
        open(COPY + "/" + f, "w").write(t.replace(old, new))
    if not ok:
        continue
    if pyx:
        build()
    open(d + "/patch.diff", "w").write(sh("git diff", cwd=COPY).stdout)
    p = sh("bash %s/demo.sh" % d, cwd=COPY)
    if p.returncode == 0:
        print(sid, "DEMO PASSES CHANGED"); continue
    msg = p.stderr.strip().splitlines()[-1:] 
    sh("bash /tmp/w/seedtest.sh /tmp/w/seed_out.json", timeout=1200)
    q = sh("python3 %s/tools/cmp_tests.py /tmp/w/seed_out.json" % VERIF)
    print(sid, "demo:", msg, "tests:", q.stdout.strip()[-300:], flush=True)
sh("git checkout -q -- .", cwd=COPY)
