"""Writes MANIFEST.json from the check modules that exist."""
import importlib
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
props = [json.loads(x) for x in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    try:
        m = importlib.import_module("checks." + i.lower())
    except ModuleNotFoundError as e:
        if e.name != "checks." + i.lower():
            raise
        na.append({"property": i, "reason": "no check yet"})
        continue
    checks.append({"property": i, "quick_cmd": "./check %s --tier quick" % i, "thorough_cmd": "./check %s --tier thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": m.TECHNIQUE, "level": m.LEVEL, "level_note": m.LEVEL_NOTE})
json.dump({"version": 1, "setup_cmd": "./setup.sh",
           "hooks": {"guard": "none (no hooks in /repo; all monitors attach from outside)", "enable": "VERIF_REPO=/repo (checks import the working tree)", "source_commits": []},
           "checks": checks, "not_applicable": na}, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
