"""Writes properties.jsonl and MANIFEST.json from the list below (run it after editing)."""
import json
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))
PROPS = []


def P(id, title, statement, over, text, why, files, mech, note, state=()):
    PROPS.append(dict(
        id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=[w for _, w in mech], hook_needed=None), _note=note))


exec(open(f"{HERE}/props.py").read())

TECH = ("symbolic execution of the code under test (AST-level import hook, numpy/torch operations on Z3 terms); every assertion decided by Z3 for all "
        "values of the symbolic inputs on every feasible path within the bounds; counterexamples replayed on the unmodified code")


def main():
    have = set()
    for f in os.listdir(f"{HERE}/harness"):
        if f.startswith("h_"):
            have |= set(re.findall(r'@harness\("([A-Z]\d+)"', open(f"{HERE}/harness/{f}").read()))
    ids = [p["id"] for p in PROPS]
    assert len(ids) == len(set(ids)), "duplicate ids"
    assert have <= set(ids), f"harness without property: {have - set(ids)}"
    with open(f"{HERE}/properties.jsonl", "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    checks = [dict(property=p["id"], quick_cmd=f"./check.sh {p['id']}", thorough_cmd=f"./check.sh {p['id']} --tier thorough", technique=TECH,
                   level="model_checking", level_note=p["_note"]) for p in PROPS if p["id"] in have]
    na = [dict(property=p["id"], reason=NOT_APPLICABLE.get(p["id"], "no harness for it has been built yet")) for p in PROPS if p["id"] not in have]
    m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
             notes="No hooks in /repo: the import hook rewrites the sources in memory on every run. known_findings.json lists genuine defects (repaired or not).")
    with open(f"{HERE}/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(PROPS), "properties,", len(checks), "checks, not applicable:", [x["property"] for x in na])


main()
