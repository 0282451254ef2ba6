#!/usr/bin/env python3
"""Writes known_findings.json from tools/fixed.txt and tools/known.txt."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def lines(name):
    with open(os.path.join(HERE, "tools", name)) as f:
        return [x.rstrip("\n") for x in f if x.strip()]


known, fixed = [], []
for x in lines("known.txt"):
    pid, kid, what = x.split(" ", 2)
    known.append({"property": pid, "id": kid, "what": what})
for x in lines("fixed.txt"):
    pid, commit, what = x.split(" ", 2)
    fixed.append("fixed: property=%s %s %s" % (pid, commit, what))
with open(os.path.join(HERE, "known_findings.json"), "w") as f:
    json.dump({"known": known, "fixed": fixed}, f, indent=1)
    f.write("\n")
