"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=["arguments and results of the public readers and "
                               "writers and of the functions named here"], hook_needed=None),
                  note=note))


def na(id, reason):
    NA.append(dict(property=id, reason=reason))


U = "rsciio/utils/"
exec(open(os.path.join(HERE, "tools", "props_table.py")).read())

ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        d = {k: v for k, v in p.items() if k != "note"}
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
claimed = [p for p in P if os.path.exists(os.path.join(HERE, "props", p["id"].lower() + ".py"))
           and p["id"] not in {n["property"] for n in NA}]
for p in P:
    if p not in claimed and p["id"] not in {n["property"] for n in NA}:
        na(p["id"], "no check is built for it yet")
m = dict(version=1, setup_cmd="/opt/venv/bin/python /verif/selftest/selftest.py",
         checks=[dict(property=p["id"], quick_cmd="./check.sh %s --tier quick" % p["id"],
                      thorough_cmd="./check.sh %s --tier thorough" % p["id"],
                      evidence_file="evidence/%s.json" % p["id"],
                      technique="contract-based deductive verification of the extracted code (pyvc: weakest-"
                      "precondition style symbolic execution with loop invariants; z3, cvc5)",
                      level="proof", level_note=p["note"]) for p in claimed],
         not_applicable=NA,
         notes="Every check extracts the functions under contract from /repo's current source (read on every run), "
         "discharges every obligation, and searches for a concrete failing input with the real code (bounded; only "
         "to give replays, never counted as proved).")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print("claimed", [p["id"] for p in claimed], "na", [n["property"] for n in NA])
