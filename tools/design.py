"""DESIGN.md from tools/DESIGN.tmpl, with the table of planted bugs (id, property, what was caught)."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = set(json.load(open(os.path.join(V, "tools", "missed.json")))) if os.path.exists(os.path.join(V, "tools", "missed.json")) else set()
rows = []
for d in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    rows.append(f"| {i}: {m['needs']} | {m['property']} | {'no' if i in missed else 'yes'} |")
t = open(os.path.join(V, "tools", "DESIGN.tmpl")).read()
more = os.path.join(V, "tools", "DESIGN.more")
t = t.replace("@@SEEDS@@", "\n".join(rows)).replace("@@MORE@@\n", open(more).read() if os.path.exists(more) else "")
open(os.path.join(V, "DESIGN.md"), "w").write(t)
