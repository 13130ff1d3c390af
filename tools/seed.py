#!/usr/bin/env python3
"""Development aid: build /verif/seeded/<id>/ from a seed file.

usage: seed.py FILE [-k substring] [-n]      (-n: verify only, write nothing)
Same entries as mutants.py (one property), plus
  ~~ needs: text
  ~~ breaks: text
  %%%%
  python source of the demonstration (exit status 0 when the property holds)
  %%%%
A seed is kept only when the tests pass with the change and the demonstration
passes without it and fails with it.
"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import mutants

PY = "/opt/venv/bin/python"
SH = '#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


PRE = '''from mau.environment.environment import Environment
from mau.message import MauException
from mau.parsers.document_parser import DocumentParser
from mau.test_helpers import NullMessageHandler


def parse(text, environment=None, **kwargs):
    return DocumentParser.lex_and_parse(
        text, NullMessageHandler(), environment or Environment(), **kwargs
    )


'''


def extra(path):
    res = {}
    cur = None
    lines = open(path).read().split("\n")
    i = 0
    while i < len(lines):
        l = lines[i]
        if l.startswith("### "):
            cur = res.setdefault(l[4:].partition("|")[0].strip(), {})
        elif l.startswith("~~ "):
            k, _, v = l[3:].partition(":")
            cur[k.strip()] = v.strip()
        elif l == "%%%%":
            j = lines.index("%%%%", i + 1)
            cur["demo"] = PRE + "\n".join(lines[i + 1:j]) + "\n"
            i = j
        i += 1
    return res


def sh(cmd, cwd, env=None):
    return subprocess.run(cmd, cwd=cwd, env={**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONPATH": cwd, "PYTHONHASHSEED": "0", **(env or {})}, capture_output=True, text=True)


def one(ent, ex, write):
    d = tempfile.mkdtemp(prefix="seed-")
    dst = os.path.join(d, "repo")
    try:
        subprocess.run(["cp", "-a", "/repo", dst], check=True)
        sd = os.path.join(d, "s")
        os.mkdir(sd)
        open(os.path.join(sd, "demo.py"), "w").write(ex["demo"])
        open(os.path.join(sd, "demo.sh"), "w").write(SH)
        clean = sh(["bash", os.path.join(sd, "demo.sh")], dst)
        if clean.returncode != 0:
            return ent["id"], "demo fails on the clean tree: " + (clean.stderr + clean.stdout)[-600:]
        err = mutants.apply(ent, dst)
        if err:
            return ent["id"], err
        # only original lines
        diff = sh(["git", "diff"], dst).stdout
        base = sh(["git", "rev-list", "--max-parents=0", "HEAD"], dst).stdout.split()
        fixes = sh(["git", "log", "--format=%h %s"], dst).stdout.splitlines()
        mine = [l.split()[0] for l in fixes if l.split(" ", 1)[1].startswith("fix: ")][:40]
        import re
        f = None
        warn = ""
        for l in diff.splitlines():
            if l.startswith("--- a/"):
                f = l[6:]
                blame = sh(["git", "blame", "-s", "HEAD", "--", f], dst).stdout.splitlines()
            m = re.match(r"@@ -(\d+)", l)
            if m:
                n = int(m.group(1))
                continue
            if f and (l.startswith("-") and not l.startswith("---")):
                h = blame[n - 1].split()[0].lstrip("^")
                if any(h.startswith(x) or x.startswith(h) for x in MINE):
                    warn += f" (touches a line of my commit {h}: {l})"
                n += 1
            elif f and l.startswith(" "):
                n += 1
        bad = sh(["bash", os.path.join(sd, "demo.sh")], dst)
        if bad.returncode == 0:
            return ent["id"], "demo passes with the change"
        t = sh([PY, "-m", "pytest", "-q", "-x", "--no-cov", "-p", "no:cacheprovider", "tests"], dst)
        if t.returncode != 0:
            return ent["id"], "tests fail: " + " ".join(t.stdout.splitlines()[-3:])[:300]
        if write:
            out = os.path.join(VERIF, "seeded", ent["id"])
            os.makedirs(out, exist_ok=True)
            open(os.path.join(out, "patch.diff"), "w").write(diff)
            open(os.path.join(out, "demo.py"), "w").write(ex["demo"])
            open(os.path.join(out, "demo.sh"), "w").write(SH)
            os.chmod(os.path.join(out, "demo.sh"), 0o755)
            json.dump({"property": ent["expect"], "needs": ex["needs"], "what_it_breaks": ex["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        return ent["id"], "kept" + warn + "  [" + (bad.stderr.strip().splitlines() or ["?"])[-1][:120] + "]"
    finally:
        shutil.rmtree(d)


def main():
    global MINE
    log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h"], capture_output=True, text=True).stdout.split()
    msgs = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
    MINE = [l.split()[0] for l in msgs if l.split(" ", 1)[1].startswith("fix: ") and l.split()[0] in log[: len(log) - 1]]
    path = sys.argv[1]
    k = sys.argv[sys.argv.index("-k") + 1] if "-k" in sys.argv else ""
    ex = extra(path)
    ents = [e for e in mutants.parse(path) if k in e["id"]]
    with ThreadPoolExecutor(7) as pool:
        for r in pool.map(lambda e: one(e, ex[e["id"]], "-n" not in sys.argv), ents):
            print(*r)


if __name__ == "__main__":
    main()
