"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []


def P(id, title, statement, over, text, why, files, mech, technique, level="proof", note="", state=None):
    anchors = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        anchors["state"] = state
    PROPS.append(dict(p=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=anchors),
                      technique=technique, level=level, note=note))


B = "python/lsst/pipe/base/"
exec(open(os.path.join(HERE, "tools", "proplist.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for x in PROPS:
        f.write(json.dumps(x["p"]) + "\n")
    for x in NA:
        f.write(json.dumps(x["p"]) + "\n")
m = dict(version=1, setup_cmd="python3-vt -c 'import z3' && /opt/venv/bin/python -c 'import lsst.pipe.base'",
         checks=[dict(property=x["p"]["id"], quick_cmd=f"python3 check.py {x['p']['id']} --tier quick", thorough_cmd=f"python3 check.py {x['p']['id']} --tier thorough",
                      technique=x["technique"], level=x["level"], level_note=x["note"]) for x in PROPS],
         not_applicable=[dict(property=x["p"]["id"], reason=x["reason"]) for x in NA],
         notes="Every check extracts the functions it verifies from /repo's current source on each run (pyvc) and drives the same functions with the bounded executable contract; see DESIGN.md.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
