#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing)."""
import json
from pathlib import Path
ROOT = Path(__file__).resolve().parent.parent
P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na, observe=observe))


exec((ROOT / "tools" / "proptable.py").read_text())

with open(ROOT / "properties.jsonl", "w") as fh:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        anchors = {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}
        if p["observe"]:
            anchors["observe_at"] = p["observe"]
        fh.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                             "quantifier": {"over": p["over"], "text": p["qtext"]},
                             "why_tests_cant": p["why"], "anchors": anchors}) + "\n")
man = {"version": 1,
       "setup_cmd": "python3 -W ignore check.py --selftest",
       "checks": [], "not_applicable": []}
for p in P:
    built = (ROOT / "checks" / f"{p['id'].lower()}.py").exists()
    if p["na"] or not built:
        man["not_applicable"].append({"property": p["id"], "reason": p["na"] or "the check for this property is still being built"})
        continue
    man["checks"].append({"property": p["id"],
                          "quick_cmd": f"python3 -W ignore check.py {p['id']} --tier quick",
                          "thorough_cmd": f"python3 -W ignore check.py {p['id']} --tier thorough",
                          "technique": p["technique"], "level": "other", "level_note": p["note"]})
(ROOT / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
print(len(man["checks"]), "checks", len(man["not_applicable"]), "not applicable")
