#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from specs.py."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "vlib"))
from specs import PROPS
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for pid, p in PROPS.items():
        assert len(p["title"]) <= 80, (pid, len(p["title"]))
        for x in p["files"]:
            assert os.path.exists("/repo/" + x), x
        f.write(json.dumps(dict(id=pid, title=p["title"], statement=p["statement"],
                                quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"],
                                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))) + "\n")
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=[], not_applicable=[])
for pid, p in PROPS.items():
    if not p["runs"]:
        m["not_applicable"].append(dict(property=pid, reason=p["note"]))
        continue
    m["checks"].append(dict(property=pid, quick_cmd="python3 check.py %s --tier quick" % pid,
                            thorough_cmd="python3 check.py %s --tier thorough" % pid,
                            technique=p["technique"], level="exploration", level_note=p["note"]))
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
