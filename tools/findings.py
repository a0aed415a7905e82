"""Rewrites the fixed entries of known_findings.json from the "fix:" commits of /repo (the findings stay as they are)."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# first match wins
MAP = [("skip list", "C13"), ("SortSeq", "C13"), ("sweep", "C08"), ("STEP", "C11"), ("R-tree", "C16"), ("BVH", "C21"), ("bvh_ray", "C21"),
       ("bounding boxes that were", "C21"), ("a ray ", "C21"), ("AVL", "C14"), ("k-d", "C15"), ("k-nearest", "C15"), ("CDLL", "C17"),
       ("pickled and deep", "C04"), ("isocurve", "C05"), ("ruled", "C05"), ("the arrays a curve hands out", "C02"), ("deserializ", "C07"),
       ("serialized", "C06"), ("pickling", "C06"), ("decomposing a curve", "C02"), ("a curve keeps its own", "C02"), ("keeps its own arrays", "C02"),
       ("copied curve", "C02"), ("hands out a copy", "C02"), ("surface", "C04"), ("insertion keeps", "C03"), ("trim", "C03"), ("flip", "C03"),
       ("reverse", "C03"), ("elevation", "C03"), ("joining", "C03"), ("derivative", "C01"), ("curve", "C01"), ("allocation in knot", "C01"),
       ("inserting a knot", "C01")]


def main():
    extra = os.path.join(HERE, "tools", "findings_map.json")
    names = list(json.load(open(extra)).items()) if os.path.exists(extra) else []
    log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "22ff865..HEAD"], capture_output=True, text=True).stdout
    fixed = []
    for line in log.splitlines():
        h, s = line.split(" ", 1)
        if s.startswith("fix:"):
            p = next((v for k, v in names + MAP if k in s), "?")
            fixed.append(f"fixed: property={p} {h} {s[5:]}")
    path = os.path.join(HERE, "known_findings.json")
    doc = json.load(open(path))
    doc["fixed"] = fixed
    json.dump(doc, open(path, "w"), indent=1)
    open(path, "a").write("\n")
    for f in fixed:
        if "=?" in f:
            print(f)


main()
