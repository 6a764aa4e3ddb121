#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/table.py."""
import json, pathlib, sys
sys.path.insert(0, str(pathlib.Path(__file__).parent))
sys.dont_write_bytecode = True
from table import PROPS
root = pathlib.Path(__file__).resolve().parent.parent
with open(root / "properties.jsonl", "w") as f:
    for p in PROPS:
        files = sorted({m[1].split(":")[0] for m in p["mech"]} | set(p.get("files", [])))
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": files,
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }, ensure_ascii=False) + "\n")
checks, na = [], []
for p in PROPS:
    if "na" in p:
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"./check {p['id']}",
        "thorough_cmd": f"./check {p['id']} --thorough",
        "technique": p["technique"],
        "level": "model_checking",
        "level_note": p["note"],
    })
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Every check enumerates a finite space completely (no sampling) on the real code and compares each execution with a reference model; see DESIGN.md."}
(root / "MANIFEST.json").write_text(json.dumps(m, indent=1, ensure_ascii=False) + "\n")
