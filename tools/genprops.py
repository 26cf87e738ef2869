#!/usr/bin/env python3
"""Writes properties.jsonl, checks.json and MANIFEST.json from one table."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def prop(id, title, statement, over, text, why, files, mech, pkg=None, technique=None, note="", observe=(), na=None, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      pkg=pkg, technique=technique, note=note, observe=list(observe), na=na, kw=kw))


exec(open(os.path.join(VERIF, "tools", "props_table.py")).read())

with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        anchors = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": False}
        if p["observe"]:
            anchors["observe_at"] = p["observe"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"], "anchors": anchors}) + "\n")

checks, man, na = {}, [], []
for p in PROPS:
    if not p["pkg"]:
        na.append({"property": p["id"], "reason": p["na"] or "no check built yet"})
        continue
    checks[p["id"]] = dict(pkg=p["pkg"], **p["kw"])
    man.append({
        "property": p["id"],
        "quick_cmd": "python3 check.py %s quick" % p["id"],
        "thorough_cmd": "python3 check.py %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p["technique"], "level": p["kw"].get("level", "exploration"), "level_note": p["note"]})
with open(os.path.join(VERIF, "checks.json"), "w") as f:
    json.dump(checks, f, indent=1)
    f.write("\n")
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump({
        "version": 1,
        "setup_cmd": "python3 setup.py",
        "checks": man, "not_applicable": na,
        "notes": "No hooks in /repo: the checks use the exported API, the network and the built program. Repairs of genuine defects are the 'fix:' commits listed in KNOWN-FINDINGS.txt. checks.json, properties.jsonl and this file are written by tools/genprops.py.",
    }, f, indent=1)
    f.write("\n")
print(len(PROPS), "properties,", len(man), "checks")
