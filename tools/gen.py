#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from the rule modules (and
tools/not_applicable.json)."""
import importlib, json, os, sys, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
props, checks = [], []
for f in sorted(glob.glob(os.path.join(VERIF, "sa/rules/p[0-9]*.py"))):
    m = importlib.import_module("sa.rules." + os.path.basename(f)[:-3])
    P = m.PROPERTY
    assert len(P["title"]) <= 80, (P["id"], len(P["title"]))
    assert P["statement"].count(". ") <= 2, (P["id"], "sentences", P["statement"].count(". "))
    props.append(P)
    checks.append({
        "property": P["id"],
        "quick_cmd": f"python3 check.py {P['id']}",
        "thorough_cmd": f"python3 check.py {P['id']}",
        "technique": m.TECHNIQUE,
        "level": "other",
        "level_note": m.LEVEL_NOTE,
    })
na = json.load(open(os.path.join(VERIF, "tools/not_applicable.json")))
for e in na:
    props.append(e["definition"])
props.sort(key=lambda p: p["id"])
with open(os.path.join(VERIF, "properties.jsonl"), "w") as fh:
    for p in props:
        fh.write(json.dumps(p) + "\n")
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as fh:
    json.dump({
        "version": 1,
        "setup_cmd": "python3 -c \"import ast, sys; sys.exit(sys.version_info < (3, 12))\"",
        "checks": checks,
        "not_applicable": [{"property": e["definition"]["id"], "reason": e["reason"]} for e in na],
        "notes": "Every check is a static analysis of /repo's current source: no module of the package is imported or run.",
    }, fh, indent=1)
    fh.write("\n")
print(len(props), "properties", len(checks), "checks")
