"""Writes properties.jsonl and MANIFEST.json from props.py (python3 mc/gen.py)."""
import importlib.util
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
import sys

sys.path.insert(0, VERIF)
from mc.props import PROPS

NA = {}
lines, checks, na = [], [], []
for p in PROPS:
    lines.append(json.dumps({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["text"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
    }))
    assert len(p["title"]) <= 80, p["title"]
    if os.path.exists(os.path.join(HERE, "checks", p["id"].lower() + ".py")):
        checks.append({
            "property": p["id"],
            "quick_cmd": "python3 mc/run.py %s --tier quick" % p["id"],
            "thorough_cmd": "python3 mc/run.py %s --tier thorough" % p["id"],
            "technique": p["technique"],
            "level": "model_checking",
            "level_note": p["note"],
        })
    else:
        na.append({"property": p["id"], "reason": NA.get(p["id"], "check not built yet")})
open(os.path.join(VERIF, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import keras'", "checks": checks, "not_applicable": na}, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
from mc import design

design.write(PROPS, NA)
