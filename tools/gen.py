"""Write properties.jsonl and MANIFEST.json from tools/props.py (deterministic)."""

import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from props import PROPS  # noqa: E402

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(
            json.dumps(
                dict(
                    id=p["id"],
                    title=p["title"],
                    statement=p["statement"],
                    quantifier=dict(over=p["over"], text=p["text"]),
                    why_tests_cant=p["why"],
                    anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]),
                )
            )
            + "\n"
        )
checks, na = [], []
for p in PROPS:
    if os.path.exists(os.path.join(ROOT, "checks", p["id"].lower() + ".py")):
        checks.append(
            dict(
                property=p["id"],
                quick_cmd="./check %s quick" % p["id"],
                thorough_cmd="./check %s thorough" % p["id"],
                technique="model checking: " + p["tech"],
                level="model_checking",
                level_note=p["note"] + ". Trusts the reference model, the Python/JAX runtime and the stated bounds; says nothing outside them.",
            )
        )
    else:
        na.append(dict(property=p["id"], reason="check not built yet"))
m = dict(version=1, setup_cmd="/opt/venv/bin/python -m compileall -q mc checks tools >/dev/null && chmod +x check", checks=checks, not_applicable=na)
m["notes"] = "No hooks are needed in /repo: every check drives the public API of /repo's working tree directly (PYTHONPATH=/repo)."
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not yet")
