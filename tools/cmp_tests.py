"""compare a test run with the baseline"""
import json, sys
b = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
o = json.load(open(sys.argv[1]))
p = {t for t, v in o.items() if v in ("passed", "pass", True)} if "passed" not in o else set(o["passed"])
print(len(b), len(p), "missing:", sorted(b - p)[:20])
