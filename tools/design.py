#!/usr/bin/env python3
"""Write DESIGN.md from tools/design_head.md, the rule modules, the lists of
mutants, the planted bugs and the latest evidence."""
import collections, glob, importlib, json, os, re, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True

mut = collections.defaultdict(list)
quiet = 0
for f in sorted(glob.glob(os.path.join(VERIF, "tools/m[0-9]*.txt"))):
    for l in open(f):
        if l.startswith("### "):
            name, _, exp = l[4:].strip().partition(" | ")
            if exp.strip() == "quiet":
                quiet += 1
            else:
                for p in exp.split(","):
                    mut[p.strip()].append(name.strip())
seeds = collections.defaultdict(list)
for f in sorted(glob.glob(os.path.join(VERIF, "seeded/*/meta.json"))):
    seeds[json.load(open(f))["property"]].append(os.path.basename(os.path.dirname(f)))
fixed = collections.defaultdict(list)
for l in open(os.path.join(VERIF, "known_findings.txt")):
    m = re.match(r"fixed: property=(\w+) (\w+) (.*)", l)
    if m:
        fixed[m[1]].append(f"`{m[2]}` {m[3]}")
out = [open(os.path.join(VERIF, "tools/design_head.md")).read().rstrip(), "", "## Properties", ""]
for f in sorted(glob.glob(os.path.join(VERIF, "sa/rules/p[0-9]*.py"))):
    m = importlib.import_module("sa.rules." + os.path.basename(f)[:-3])
    P = m.PROPERTY
    i = P["id"]
    out += [f"### {i} {P['title']}", "", P["statement"], ""]
    out.append(f"* Method: {m.TECHNIQUE}.")
    out.append(f"* How: {m.EXPLANATION}")
    out.append(f"* Bounds: {m.LEVEL_NOTE}")
    if m.ASSUMPTIONS:
        out.append("* Assumptions: " + "; ".join(m.ASSUMPTIONS) + ".")
    out.append(f"* Beyond tests: {P['why_tests_cant']}")
    e = os.path.join(VERIF, "evidence", f"{i}.json")
    if os.path.exists(e):
        d = json.load(open(e))
        c = d["coverage"]
        out.append(f"* Size: {c['obligations']} obligations, {c['functions_analysed']} functions, {c['abstract_paths']} abstract paths; about {max(1, round(d['wall_s']))} s.")
    if mut[i]:
        out.append(f"* Changes it catches ({len(mut[i])}): " + ", ".join(mut[i]) + ".")
    if seeds[i]:
        out.append("* Planted bugs it catches: " + ", ".join(f"`{s}`" for s in seeds[i]) + ".")
    for x in fixed[i]:
        out.append(f"* Repaired defect: {x}.")
    out.append("")
out += ["## Not applicable", ""]
for e in json.load(open(os.path.join(VERIF, "tools/not_applicable.json"))):
    out += [f"* **{e['definition']['id']} {e['definition']['title']}.** {e['reason']}"]
text = "\n".join(out) + "\n"
open(os.path.join(VERIF, "DESIGN.md"), "w").write(text.replace("@QUIET@", str(quiet)))
print(len(text), "characters;", sum(map(len, mut.values())), "changes,", quiet, "quiet")
