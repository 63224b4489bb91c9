"""writes properties.jsonl and MANIFEST.json (run after editing; not used by the checks)"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "src/tight_binding_redweasel/"
P = []
NA = []


def prop(id, title, statement, over, quant, tests, files, mech, note, technique=None, na=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
                  quantifier=dict(over=over.split(","), text=" ".join(quant.split())), why_tests_cant=" ".join(tests.split()),
                  anchors=dict(files=[SRC + f for f in files.split()],
                               mechanism=[dict(name=n, where=w) for n, w in mech])))
    if na:
        NA.append(dict(property=id, reason=" ".join(na.split())))
    else:
        P[-1]["_note"] = " ".join(note.split())


exec(open(os.path.join(HERE, "tools", "props.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}, ensure_ascii=False) + "\n")
checks = []
for p in P:
    if "_note" not in p:
        continue
    i = p["id"]
    assert os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")), i
    checks.append(dict(property=i, quick_cmd=f"./run.sh {i} quick", thorough_cmd=f"./run.sh {i} thorough", evidence_file=f"evidence/{i}.json",
                       technique="symbolic execution of the real Python source, obligations decided by z3 (SMT)", level="other", level_note=p["_note"]))
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="./run.sh selftest", checks=checks, not_applicable=NA,
                   notes="Every check compiles /repo's current sources symbolically on each run; nothing is prebuilt. See DESIGN.md."), f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(P), "properties", len(checks), "checks", len(NA), "not applicable")
