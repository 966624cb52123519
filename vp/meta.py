#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json (run by hand after editing)."""
import json, os, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NOT_APPLICABLE = []


def prop(id, title, statement, over, quant, why, files, mech, observe, note, technique):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  observe=observe, note=note, technique=technique))


exec(open(os.path.join(ROOT, "vp", "properties.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None},
        }) + "\n")

manifest = {
    "version": 1,
    "setup_cmd": "python3 vp/setup.py",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "python3 vp/run.py " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough python3 vp/run.py " + p["id"],
        "technique": p["technique"],
        "level": "exploration",
        "level_note": p["note"],
    } for p in P if p["technique"]],
    "not_applicable": NOT_APPLICABLE,
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
sys.path.insert(0, os.path.join(ROOT, "vp"))
from props import PROPS
ids = {p["id"] for p in P if p["technique"]}
print(len(ids), "claimed;", "not in props.py:", sorted(ids - set(PROPS)), "not in properties.py:", sorted(set(PROPS) - ids))
