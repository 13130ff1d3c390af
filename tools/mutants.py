#!/usr/bin/env python3
"""Development aid: run checks against textual mutants / refactorings.

usage: mutants.py FILE [-k substring] [-p P03,P04] [-t]
FILE holds entries:
  ### id | expected properties (or 'quiet')
  @@ path
  <<<<
  old
  ====
  new
  >>>>
-t also runs the repository's tests on the mutant.
"""
import os, re, shutil, subprocess, sys, tempfile, json
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def parse(path):
    ents = []
    cur = None
    lines = open(path).read().split("\n")
    i = 0
    while i < len(lines):
        l = lines[i]
        if l.startswith("### "):
            a, _, b = l[4:].partition("|")
            cur = {"id": a.strip(), "expect": b.strip(), "edits": []}
            ents.append(cur)
        elif l.startswith("@@ "):
            f = l[3:].strip()
        elif l == "<<<<":
            j = lines.index("====", i)
            k = lines.index(">>>>", j)
            cur["edits"].append((f, "\n".join(lines[i + 1:j]), "\n".join(lines[j + 1:k])))
            i = k
        i += 1
    return ents


def apply(ent, dst):
    for f, old, new in ent["edits"]:
        p = os.path.join(dst, f)
        s = open(p).read()
        if s.count(old) < 1:
            return f"old text not found in {f}: {old[:60]!r}"
        if old == "":
            s = s + "\n" + new + "\n"
        else:
            s = s.replace(old, new, 1)
        open(p, "w").write(s)
    return None


def run(ent, props, tests):
    d = tempfile.mkdtemp(prefix="mut-")
    dst = os.path.join(d, "repo")
    try:
        shutil.copytree("/repo", dst, ignore=shutil.ignore_patterns(".git", "docs", "*.pyc"))
        err = apply(ent, dst)
        if err:
            return ent, {"error": err}
        res = {}
        exp = [] if ent["expect"] == "quiet" else ent["expect"].split(",")
        for p in props or exp:
            r = subprocess.run(["python3", os.path.join(VERIF, "check.py"), p], env={**os.environ, "MAU_ROOT": dst, "SA_WORKERS": "1", "SA_EVIDENCE": d}, capture_output=True, text=True, cwd=VERIF)
            res[p] = (r.returncode, [l for l in r.stdout.splitlines() if not re.match(r"P\d+:", l)] + r.stderr.splitlines()[-3:])
        if tests:
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "tests"], cwd=dst, env={**os.environ, "PYTHONPATH": dst, "PYTHONDONTWRITEBYTECODE": "1"}, capture_output=True, text=True)
            res["tests"] = (r.returncode, r.stdout.splitlines()[-1:])
        return ent, res
    finally:
        shutil.rmtree(d)


def main():
    a = sys.argv[1:]
    path = a.pop(0)
    k = None
    props = None
    tests = False
    while a:
        x = a.pop(0)
        if x == "-k":
            k = a.pop(0)
        elif x == "-p":
            props = a.pop(0).split(",")
            if props == ["all"]:
                props = [c["property"] for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]]
        elif x == "-t":
            tests = True
    ents = [e for e in parse(path) if not k or k in e["id"]]
    bad = 0
    with ThreadPoolExecutor(7) as ex:
        for ent, res in ex.map(lambda e: run(e, props, tests), ents):
            if "error" in res:
                print("ERR ", ent["id"], res["error"])
                bad += 1
                continue
            quiet = ent["expect"] == "quiet"
            codes = {p: c for p, (c, _) in res.items() if p != "tests"}
            ok = all(c == 0 for c in codes.values()) if quiet else (any(c == 1 for c in codes.values()) and all(c in (0, 1) for c in codes.values()))
            if not ok:
                bad += 1
            print("ok  " if ok else "MISS", ent["id"], codes if len(codes) < 6 else {p: c for p, c in codes.items() if c}, res.get("tests", ""))
            if not ok or os.environ.get("V"):
                for p, (c, ls) in res.items():
                    if c:
                        for l in ls[:6]:
                            print("       ", p, l[:300])
    print(len(ents), "entries,", bad, "bad")


if __name__ == "__main__":
    main()
