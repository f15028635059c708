#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list of properties in props.py."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
ns = {}
exec(open(os.path.join(HERE, "props.py")).read(), ns)
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in ns["PROPS"]:
        o = {
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p.get("over", ["inputs"]), "text": p["quantifier"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]]},
        }
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(o, ensure_ascii=False) + "\n")
m = {
    "version": 1,
    "setup_cmd": "python3 lib/extract.py",
    "checks": [],
    "not_applicable": [],
    "notes": "No hooks: the checks read the source of /repo as it is. Every check needs only the source, never a build.",
}
for p in ns["PROPS"]:
    if "na" in p:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        assert os.path.exists(os.path.join(HERE, "checks", p["id"] + ".py")), p["id"]
        m["checks"].append({
            "property": p["id"],
            "quick_cmd": "./check %s" % p["id"],
            "thorough_cmd": "./check %s --thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": p["technique"],
            "level": "other",
            "level_note": p["note"],
        })
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
