#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/catalog.py (the single source for both)."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from catalog import PROPS, NOT_APPLICABLE  # noqa: E402

with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
    for p in PROPS + NOT_APPLICABLE:
        files = p["files"]
        d = {
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["for_all"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": files,
                        "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]]},
        }
        fh.write(json.dumps(d) + "\n")
checks = []
for p in PROPS:
    cmd = "python3 /verif/harness/check.py %s " % p["id"]
    checks.append({
        "property": p["id"], "quick_cmd": cmd + "quick", "thorough_cmd": cmd + "thorough",
        "technique": p["technique"], "level": "model_checking", "level_note": p["note"],
    })
manifest = {
    "version": 1,
    "setup_cmd": "bash /verif/tools/setup.sh",
    "hooks": {"guard": "PROBNUM_VP_UNUSED", "enable": "no hooks: the checks use the public interface only", "source_commits": []},
    "checks": checks,
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NOT_APPLICABLE],
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
    json.dump(manifest, fh, indent=1)
    fh.write("\n")
