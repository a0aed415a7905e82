"""Writes properties.jsonl and MANIFEST.json from tools/table.py and the property modules' own literals."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from sim.runner import load_meta  # noqa: E402
from tools.table import P, TECH  # noqa: E402

PYB = "/opt/venv/bin/python"
props, checks, na = [], [], []
for p in sorted(P, key=lambda p: p["id"]):
    props.append({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
        "anchors": {"files": p["files"], "state": list(p["state"]), "mechanism": p["mechanism"],
                    "observe_at": list(p["observe"]), "hook_needed": None},
    })
    assert len(p["title"]) <= 80, p["id"]
    if p["na"]:
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    try:
        meta = load_meta(p["id"])
    except FileNotFoundError:
        na.append({"property": p["id"], "reason": "not built yet"})
        continue
    note = p["level_note"] or "Seeded sampling of histories, schedules and faults: a clean batch is evidence, not proof."
    note += " Real code: " + ", ".join(meta["REAL"]) + "."
    if meta["ASSUMPTIONS"]:
        note += " Assumes: " + "; ".join(meta["ASSUMPTIONS"]) + "."
    checks.append({
        "property": p["id"], "quick_cmd": f"{PYB} run.py check {p['id']} --tier quick",
        "thorough_cmd": f"{PYB} run.py check {p['id']} --tier thorough",
        "evidence_file": f"evidence/{p['id']}.json", "technique": TECH, "level": meta["LEVEL"], "level_note": note,
    })
with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": f"{PYB} run.py build", "checks": checks, "not_applicable": na,
               "notes": "No hooks in /repo: the seams are the interpreter's monitoring events, the allocator (preloaded shim), "
                        "file objects and the library's own callbacks. Commits in /repo are fixes only."}, f, indent=1)
print(len(checks), "checks;", [n["property"] for n in na], "not claimed")
