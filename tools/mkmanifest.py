#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
NOTES = json.load(open(os.path.join(V, "tools/levels.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^hooks:"], stdout=subprocess.PIPE, text=True).stdout.split()
man = {
    "version": 1,
    "setup_cmd": "bin/setup",
    "hooks": {
        "guard": "--cfg verif_hooks",
        "enable": "RUSTFLAGS='-Copt-level=3 --cfg verif_hooks' cargo build --release --offline (lib/common.py: build_libmgen)",
        "source_commits": hook,
    },
    "checks": [],
    "not_applicable": [],
}
for p in props:
    i = p["id"]
    if i in NOTES:
        n = NOTES[i]
        man["checks"].append({
            "property": i,
            "quick_cmd": "bin/check %s --tier quick" % i,
            "thorough_cmd": "bin/check %s --tier thorough" % i,
            "technique": n["technique"],
            "level": n.get("level", "model_checking"),
            "level_note": n["note"],
        })
    else:
        man["not_applicable"].append({"property": i, "reason": "no check has been built yet"})
if not man["not_applicable"]:
    del man["not_applicable"]
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
