#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/checks.py and tools/notes.py."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS
from notes import TECH, NOTE, NOT_APPLICABLE
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%h", "--grep=erification hooks"], capture_output=True, text=True).stdout.split()
m = {"version": 1,
     "setup_cmd": "./setup.sh",
     "hooks": {"guard": "lcms2_verif (rustc --cfg)", "enable": "RUSTFLAGS='--cfg lcms2_verif' cargo build (tools/vf.py builds /verif/harness, which depends on /repo by path)",
               "source_commits": hooks},
     "checks": [{"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "VERIF_TIER=thorough ./check " + i,
                 "technique": TECH.get(i, TECH["*"]), "level": CHECKS[i].get("level", "model_checking"),
                 "level_note": NOTE.get(i, NOTE["*"])} for i in ids if i in CHECKS],
     "not_applicable": [{"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")} for i in ids if i not in CHECKS]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
