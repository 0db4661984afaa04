#!/usr/bin/env python3
"""Generates /verif/properties.jsonl and /verif/MANIFEST.json from tools/props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import props

lines, checks, na = [], [], []
for p in props.PROPS:
    assert len(p["title"]) <= 80, p["title"]
    lines.append(json.dumps({
        "id": p["id"], "title": p["title"], "statement": " ".join(p["statement"].split()),
        "quantifier": {"over": p["over"], "text": p["quant"]},
        "why_tests_cant": " ".join(p["why"].split()),
        "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}))
    if "na" in p:
        na.append({"property": p["id"], "reason": " ".join(p["na"].split())})
    else:
        assert os.path.exists(os.path.join(ROOT, "vx", "checks", p["id"].lower() + ".py")), p["id"]
        checks.append({"property": p["id"], "quick_cmd": "./check " + p["id"], "thorough_cmd": "./check %s --tier thorough" % p["id"],
                       "technique": p["technique"], "level": "other", "level_note": " ".join(p["note"].split())})
open(os.path.join(ROOT, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
json.dump({"version": 1, "setup_cmd": "bash support/setup.sh", "checks": checks, "not_applicable": na,
           "notes": "Every check extracts the resolved program from /repo's working tree with a libTooling extractor (extractor/vxtract.cpp), then applies repository specific rules (vx/checks). Nothing of /repo is executed. No hooks are needed in /repo."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(lines), "properties", len(checks), "checks", len(na), "not applicable")
