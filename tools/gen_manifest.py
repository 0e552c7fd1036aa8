#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property that `check.sh list` knows is claimed, the rest is
listed under not_applicable."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
NOTES = {}
exec(open(root + "/tools/notes.py").read(), NOTES)
claimed = set(NOTES["CLAIMED"])
m = dict(version=1, setup_cmd="bash check.sh build", checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i not in claimed:
        m["not_applicable"].append(dict(property=i, reason=NOTES["NA"].get(i, "the check for this property is not built yet")))
        continue
    m["checks"].append(dict(property=i, quick_cmd=f"bash check.sh {i} quick", thorough_cmd=f"bash check.sh {i} thorough",
        technique=NOTES["TECH"].get(i, NOTES["TECH"][""]), level="model_checking",
        level_note=NOTES["NOTE"][i], evidence_file=f"evidence/{i}.json"))
m["notes"] = NOTES["TEXT"]
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
