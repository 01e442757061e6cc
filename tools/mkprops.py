"""Writes properties.jsonl and MANIFEST.json from one table (run by hand when the table changes)."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from proptable import PROPS, NA, NOTE  # noqa: E402

HAVE = {f[:3].upper() for f in os.listdir(os.path.join(ROOT, "harness")) if f[0] == "p" and f[1:3].isdigit()}
PROPS = sorted((p for p in PROPS if p["id"] in HAVE or p["id"] in NA), key=lambda p: p["id"])

RUN = "/opt/venv/bin/python /verif/check.py"

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        rec = dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["q"]),
            why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]),
        )
        for fn in p["files"]:
            assert os.path.exists(os.path.join("/repo", fn)), fn
        f.write(json.dumps(rec) + "\n")

man = dict(
    version=1,
    setup_cmd="/opt/venv/bin/python /verif/check.py list",
    checks=[
        dict(property=p["id"], quick_cmd=f"{RUN} {p['id']} quick", thorough_cmd=f"{RUN} {p['id']} thorough",
             evidence_file=f"evidence/{p['id']}.json",
             technique="symbolic execution of the foxes source over symbolic reals, SMT (z3) decides every branch and assertion",
             level="model_checking", level_note=p["note"])
        for p in PROPS if p["id"] not in NA
    ],
    not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
    notes=NOTE,
)
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(PROPS), "properties,", len(man["checks"]), "checks")
