"""Obligations, verdicts, evidence and known findings."""

from __future__ import annotations

import json
import os
import time

from . import chars
from .absint import K, S, Tup

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get("SA_EVIDENCE") or os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Ctx:
    def __init__(self, prog, pid, tier):
        self.prog = prog
        self.pid = pid
        self.tier = tier
        self.obligations = {}  # (rule, construct) -> dict
        self.functions = set()
        self.paths = 0
        self.notes = []

    # one obligation may be evaluated on many paths; it is discharged only if
    # every evaluation is
    def check(self, rule, construct, ok, msg="", where=None, path=None):
        key = (rule, construct)
        ob = self.obligations.setdefault(key, {"rule": rule, "construct": construct, "evaluated": 0, "undecided": 0, "bad": []})
        ob["evaluated"] += 1
        if ok is not None and not ok and foggy(path):
            # the path depends on a value the interpreter failed to compute
            ok = None
        if ok is None:
            ob["undecided"] += 1
            ob.setdefault("undecided_msg", msg)
        elif not ok:
            if len(ob["bad"]) < 3:
                ob["bad"].append({"msg": msg, "where": list(where) if where else None, "path": path() if callable(path) else path})
            else:
                ob["more"] = ob.get("more", 0) + 1
        return ok

    def need(self, rule, construct, cond, what):
        """A condition without which the analysis has no verdict."""
        from .loader import AnalysisBroken

        if not cond:
            raise AnalysisBroken(f"{rule}: {construct}: {what}")

    def saw(self, ip):
        for f in ip.visited_funcs:
            self.functions.add(f.full if hasattr(f, "full") else str(f))

    def saw_func(self, fi):
        self.functions.add(fi.full)


PURE = {"eq", "lt", "le", "gt", "ge", "max", "min", "sum", "len", "truth", "isnone", "in", "add", "sub", "mul", "neg", "not", "strip", "lower", "upper", "split", "join", "concat", "list", "dict", "tuple", "set", "sorted", "reversed", "zip", "range", "enumerate", "elem", "index", "first", "key", "val", "itemsof", "keysof", "valuesof", "int", "str", "bool"}


def foggy(path):
    """Does the path take a decision on a name that isn't resolved or on a
    term without inputs, that has a value the interpreter doesn't know?"""
    o = getattr(path, "__self__", None)
    st = getattr(o, "st", None)
    if st is None:
        return False
    return any(_undefined(a) or _closed(a) for a in st.facts)


def _undefined(t):
    if isinstance(t, tuple):
        return any(_undefined(x) for x in t)
    if isinstance(t, S):
        return t.op == "undef" or any(_undefined(x) for x in t.args)
    if isinstance(t, Tup):
        return any(_undefined(x) for x in t.items)
    return False


def _closed(t):
    if isinstance(t, tuple):
        return all(_closed(x) for x in t)
    if isinstance(t, S):
        return t.op in PURE and bool(t.args) and all(_closed(x) for x in t.args)
    if isinstance(t, Tup):
        return all(_closed(x) for x in t.items)
    if isinstance(t, K):
        return not chars.soft(t.v)
    return t is None or isinstance(t, (str, int))


def load_known(pid):
    out = {}
    fixed = []
    if not os.path.exists(KNOWN):
        return out, fixed
    with open(KNOWN, encoding="utf-8") as f:
        for line in f:
            line = line.strip()
            if not line or line.startswith("#"):
                continue
            if line.startswith("fixed:"):
                fixed.append(line)
                continue
            if line.startswith("finding:"):
                body = line[len("finding:"):].strip()
                fields = {}
                rest = body
                for k in ("property", "rule", "construct"):
                    if rest.startswith(k + "="):
                        v, _, rest = rest[len(k) + 1:].partition(" ")
                        fields[k] = v
                        rest = rest.strip()
                if fields.get("property") == pid:
                    out[(fields["rule"], fields["construct"])] = rest
    return out, fixed


def finish(ctx: Ctx, explanation, assumptions, t0, seed):
    known, _ = load_known(ctx.pid)
    viol = []
    findings = []
    for (rule, construct), ob in sorted(ctx.obligations.items()):
        if ob["bad"]:
            k = (rule, construct.replace(" ", "_"))
            if k in known:
                findings.append((ob, known[k]))
            else:
                viol.append(ob)
    n = len(ctx.obligations)
    und = [o for o in ctx.obligations.values() if o["undecided"] and not o["bad"]]
    ev = {
        "property": ctx.pid,
        "tier": ctx.tier,
        "seed": seed,
        "level": "other",
        "coverage": {
            "explanation": explanation,
            "obligations": n,
            "discharged": n - len(viol) - len(findings) - len(und),
            "undecided": len(und),
            "known_findings": len(findings),
            "functions_analysed": len(ctx.functions),
            "abstract_paths": ctx.paths,
            "functions": sorted(ctx.functions),
            "rules": sorted({r for r, _ in ctx.obligations}),
            "samples": [
                {"rule": o["rule"], "construct": o["construct"], "evaluated_on_paths": o["evaluated"], "verdict": "violated" if o["bad"] else "undecided" if o["undecided"] else "holds"}
                for _, o in sorted(ctx.obligations.items())
            ],
        },
        "assumptions": assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    epath = os.path.join(EVIDENCE, f"{ctx.pid}.json")
    with open(epath, "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1)
    print(f"{ctx.pid}: {len(ctx.functions)} functions analysed, {ctx.paths} abstract paths, {n} obligations, "
          f"{ev['coverage']['discharged']} discharged, {len(und)} undecided, {len(findings)} known, {len(viol)} violated "
          f"({ev['wall_s']} s)")
    if os.environ.get("SA_VERBOSE"):
        for _, o in sorted(ctx.obligations.items()):
            print("   ", "VIOL" if o["bad"] else "UNDEC" if o["undecided"] else "ok", o["rule"], o["construct"], o["evaluated"], o.get("undecided_msg", "") if o["undecided"] else "")
    for ob, text in findings:
        print(f"KNOWN-FINDING: property={ctx.pid} {ob['rule']} {ob['construct']}: {text}")
    if viol:
        rpath = os.path.join(EVIDENCE, f"{ctx.pid}.violation.txt")
        with open(rpath, "w", encoding="utf-8") as f:
            for ob in viol:
                for b in ob["bad"]:
                    w = b["where"] or ["?", "?"]
                    f.write(f"{ctx.pid} rule={ob['rule']} construct={ob['construct']}\n  {b['msg']}\n  at {w[0]} in {w[1] if len(w) > 1 else '?'}\n")
                    for line in b["path"] or []:
                        f.write(f"    {line}\n")
        for ob in viol:
            b = ob["bad"][0]
            w = b["where"] or ["?", "?"]
            print(f"  {ob['rule']} {ob['construct']}: {b['msg']} [{w[0]} {w[1] if len(w) > 1 else ''}]")
        print(f"VIOLATION property={ctx.pid} replay={rpath}")
        return 1
    return 0
