"""Development aid: apply one textual change in a scratch copy and run a check.
usage: mut.py PROPERTY FILE OLD NEW [-- extra check args]"""
import os, subprocess, sys
base = "/tmp/mut"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
prop, rel, old, new = sys.argv[1:5]
extra = sys.argv[5:]
subprocess.run("mkdir -p /tmp/mut && rsync -a --delete --exclude=__pycache__ --exclude='*.pyc' --exclude=tests/ %s/rsciio /tmp/mut/" % REPO, shell=True, check=True)
src = open(REPO + "/" + rel).read()
old = old.encode().decode("unicode_escape") if "\\n" in old else old
new = new.encode().decode("unicode_escape") if "\\n" in new else new
if old not in src:
    sys.exit("text not found")
if src.count(old) > 1:
    print("note: %d occurrences; all changed" % src.count(old))
open(os.path.join(base, rel), "w").write(src.replace(old, new))
try:
    env = dict(os.environ, VERIF_REPO=base)
    p = subprocess.run([HERE + "/check.sh", prop] + extra, env=env, capture_output=True, text=True)
    out = (p.stdout + p.stderr).strip().splitlines()
    print("\n".join(l for l in out if "obligation" in l or "failing" in l or "VIOLATION" in l or "Error" in l))
    print("exit", p.returncode)
finally:
    open(os.path.join(base, rel), "w").write(src)
