#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props_meta.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from props_meta import META, NOT_APPLICABLE

NOTE = ("Generated cases only: the property held on every case of the run, which is not "
        "a proof. Trusted: the reference model in vlib/ and the oracle in props/%s.py.")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for m in META.values():
            assert len(m["title"]) <= 80, m["title"]
            f.write(json.dumps({
                "id": m["id"], "title": m["title"], "statement": m["statement"],
                "quantifier": {"over": m["over"], "text": m["text"]},
                "why_tests_cant": m["why"],
                "anchors": {
                    "files": m["files"],
                    "mechanism": [{"name": a, "where": b} for a, b in m["mechanism"]],
                    "observe_at": m["observe"], "hook_needed": None},
            }, sort_keys=False) + "\n")
    checks = []
    for m in META.values():
        if m["id"] in NOT_APPLICABLE:
            continue
        note = NOTE % m["id"].lower()
        if m["assumptions"]:
            note += " Assumes: " + "; ".join(m["assumptions"]) + "."
        if m["note"]:
            note += " " + m["note"]
        checks.append({
            "property": m["id"],
            "quick_cmd": "/opt/venv/bin/python check.py %s --tier quick" % m["id"],
            "thorough_cmd": "/opt/venv/bin/python check.py %s --tier thorough" % m["id"],
            "technique": "property-based testing: random structured generation against "
                         "a reference model or metamorphic relation, with shrinking",
            "level": "exploration", "level_note": note})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "true", "checks": checks,
                   "not_applicable": [{"property": k, "reason": v}
                                      for k, v in NOT_APPLICABLE.items()]}, f, indent=1)
        f.write("\n")


main()
