#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl; CLAIMED lists the properties that have a check."""
import json, os, subprocess
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
claimed = json.load(open(os.path.join(root, "tools/claimed.json")))
hooks = [l for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^hook:"], capture_output=True, text=True).stdout.split()]
m = {"version": 1, "setup_cmd": "bash check.sh build",
     "hooks": {"guard": "cfg(tonbo_verif)", "enable": "RUSTFLAGS='--cfg tonbo_verif' with TONBO_VERIF_SRC naming the harness root (done by check.sh)", "source_commits": hooks},
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in claimed:
        m["checks"].append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
            "technique": claimed[i]["technique"], "level": "model_checking", "level_note": claimed[i]["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
