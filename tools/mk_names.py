"""Development aid: record the names of locals (pyvc/names.json; see pyvc/alpha.py)."""
import ast, glob, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pyvc import alpha
from pyvc.load import REPO, source_of
out = {}
for path in sorted(glob.glob(REPO + "/rsciio/**/*.py*", recursive=True)):
    rel = os.path.relpath(path, REPO)
    if "/tests/" in rel or not rel.endswith((".py", ".pyx")):
        continue
    d = {}
    for name, fn in alpha.functions(ast.parse(source_of(rel))):
        l = alpha.local_names(fn)
        if l:
            d[name] = l
    if d:
        out[rel] = d
with open(alpha.FILE, "w", encoding="utf-8") as f:
    json.dump(out, f, indent=0, sort_keys=True)
    f.write("\n")
print(sum(map(len, out.values())), "functions")
