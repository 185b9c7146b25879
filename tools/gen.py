"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NA      # noqa: E402

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python -B run.py %s --tier %s"

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {
                "files": p["files"],
                "mechanism": [{"name": n, "where": w}
                              for n, w in p["mechanism"]],
                "observe_at": p.get("observe", []),
                "hook_needed": None,
            }}, ensure_ascii=False) + "\n")

na = {p for p, _ in NA}
man = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -B tools/selftest.py",
    "checks": [{
        "property": p["id"],
        "quick_cmd": PY % (p["id"], "quick"),
        "thorough_cmd": PY % (p["id"], "thorough"),
        "technique": p.get("technique", (
            "contracts on the real functions; verification conditions from "
            "symbolic execution of the code in /repo, discharged by an exact "
            "ring normal form, z3 and cvc5")),
        "level": "proof",
        "level_note": p["note"],
    } for p in PROPS if p["id"] not in na],
    "not_applicable": [{"property": a, "reason": b} for a, b in NA],
    "notes": "See DESIGN.md. Genuine defects that were not repaired are in "
             "known-findings.json.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write("\n")
